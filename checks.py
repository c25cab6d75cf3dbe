def parts(f, n):
    return ["%s@%d" % (f, i) for i in range(n)]

FULL = ["-lcfitsio","-lcurl","-llapack","-lgsl","-lgslcblas","-lwcs","-lfftw3","-lm","-pthread"]

CHECKS = {
 "C01": dict(src=["c01.cpp"]),
 "C02": dict(src=parts("c02.cpp", 8), opt="-O0"),
 "C03": dict(src=parts("c03.cpp", 8), opt="-O0"),
 "C04": dict(src=parts("c04.cpp", 8), opt="-O0"),
 "C05": dict(src=parts("c05.cpp", 11), opt="-O0"),
 "C06": dict(src=parts("c06.cpp", 8), opt="-O0", libs=["-lgsl","-lgslcblas","-lm","-pthread"]),
 "C07": dict(src=parts("c07.cpp", 4), opt="-O0"),
 "C08": dict(src=["c08.cpp"], opt="-O0"),
 "C09": dict(src=["c09.cpp"], opt="-O0"),
 "C10": dict(src=["c10.cpp"], opt="-O0"),
 "C11": dict(src=parts("c11.cpp", 3), opt="-O0"),
 "C12": dict(src=["c12.cpp"], opt="-O0"),
 "C13": dict(src=parts("c13.cpp", 4), opt="-O0", libs=["-lgsl","-lgslcblas","-lm","-pthread"]),
 "C14": dict(src=["c14.cpp"], opt="-O0", libs=["-lgsl","-lgslcblas","-lm","-pthread"]),
 "C15": dict(src=["c15.cpp"], opt="-O0", libs=["-lgsl","-lgslcblas","-lm","-pthread"]),
 "C16": dict(src=parts("c16.cpp", 4), opt="-O0", libs=["-llapack","-lm","-pthread"]),
 "C17": dict(src=["c17.cpp"], opt="-O0"),
 "C18": dict(src=["c18.cpp"], opt="-O0"),
 "C19": dict(src=["c19.cpp"], opt="-O0"),
 "C20": dict(src=["c20.cpp"], opt="-O0"),
 "C21": dict(src=["c21.cpp"], opt="-O0"),
 "C22": dict(src=["c22.cpp"], opt="-O0", unpriv=True),
 "C23": dict(src=["c23.cpp"], opt="-O0", unpriv=True),
 "C24": dict(src=["c24.cpp","c24b.cpp"], opt="-O0", unpriv=True, libs=["-lcfitsio","-lcurl","-lm","-pthread"]),
 "C25": dict(src=parts("c25.cpp", 6), opt="-O0", unpriv=True, libs=["-lcfitsio","-lcurl","-lm","-pthread"]),
 "C30": dict(src=parts("c30.cpp", 4), opt="-O1", libs=["-lcfitsio","-lcurl","-llapack","-lgsl","-lgslcblas","-lwcs","-lfftw3","-lm","-pthread"]),
 "C34": dict(src=["c34.cpp"], engine="conc", libs=["-lcfitsio","-lcurl","-llapack","-lgsl","-lgslcblas","-lwcs","-lfftw3"]),
 "C31": dict(src=parts("c31.cpp", 3), opt="-O0", libs=FULL),
 "C32": dict(src=["c32.cpp"], opt="-O0", libs=FULL),
 "C33": dict(src=["c33.cpp"], opt="-O0", libs=FULL),
 "C37": dict(src=parts("c37.cpp", 2), opt="-O0", libs=FULL),
 "C38": dict(src=parts("c38.cpp", 2), opt="-O0", libs=FULL),
 "C26": dict(src=["c26.cpp"], engine="conc"),
 "C27": dict(src=["c27.cpp"], engine="conc"),
 "C28": dict(src=["c28.cpp"], engine="conc"),
 "C29": dict(src=["c29.cpp"], engine="conc"),
 "C35": dict(src=["c35.cpp"], opt="-O0", libs=FULL),
 "C36": dict(src=parts("c36.cpp", 2), opt="-O0", libs=FULL),
 "C39": dict(src=["c39.cpp"], opt="-O0", unpriv=True, libs=["-lcfitsio","-lcurl","-lm","-pthread"]),
 "C40": dict(src=parts("c40.cpp", 2), opt="-O0", libs=FULL),
 "C41": dict(src=parts("c41.cpp", 3), opt="-O1", libs=FULL),
 "C42": dict(src=parts("c42.cpp", 2), opt="-O0", libs=FULL),
 "C43": dict(src=parts("c43.cpp", 2), opt="-O1", libs=FULL),
 "C44": dict(src=["c43.cpp@2"], opt="-O1", libs=FULL),
 "C45": dict(src=["c45.cpp"], opt="-O0", libs=FULL),
 "C46": dict(src=["c46.cpp"], opt="-O1", libs=FULL),
 "C47": dict(src=["c47.cpp"], opt="-O0", libs=FULL),
 "C48": dict(src=["c48.cpp"], opt="-O0"),
 "C49": dict(src=["c49.cpp"], opt="-O0"),
}
