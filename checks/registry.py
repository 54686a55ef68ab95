CHECKS = {
    "C30": ("access", "c30"), "C31": ("access", "c31"), "C33": ("access", "c33"),
    "C24": ("texts", "c24"), "C25": ("texts", "c25"), "C26": ("texts", "c26"), "C27": ("code", "c27"), "C21": ("failure", "c21"),
    "C32": ("effects", "c32", "mixed"),
    "C37": ("more", "c37"),
    "C38": ("console", "c38"),
    "C42": ("more", "c42"),
    "C45": ("rscript", "c45"), "C46": ("points", "c46"),
    "C28": ("data", "c28"), "C36": ("data", "c36"),
    "C18": ("rules", "c18"), "C22": ("objects", "c22", "mixed"), "C19": ("copies", "c19"), "C20": ("copies", "c20"), "C23": ("params", "c23"), "C29": ("objects", "c29", "mixed"),
    "C17": ("ops", "c17"), "C34": ("ops", "c34"), "C35": ("ops", "c35"),
    "C15": ("defuzz", "c15"), "C16": ("defuzz", "c16"),
    "C05": ("engine", "c05"), "C06": ("engine", "c06"), "C07": ("engine", "c07"), "C08": ("engine", "c08"),
    "C01": ("engine", "c01"), "C02": ("engine", "c02"), "C03": ("engine", "c03"), "C04": ("engine", "c04"),
    "C09": ("terms", "c09"), "C10": ("terms", "c10"), "C11": ("norms", "tnorms"), "C12": ("norms", "snorms"),
    "C13": ("norms", "hedges"), "C14": ("terms", "c14"),
}
TECH = {
    "ai": ("abstract interpretation (intervals and value numbers, trace partitioning) of the clang AST",
           "Alarms only on definite refutation of an obligation by the abstract semantics; obligations the abstraction cannot decide are reported in the "
           "evidence and never alarm. Trusts the clang front end, the interpreter's transfer functions and its models of the C++ standard library."),
    "mixed": ("abstract interpretation of the clang AST plus whole-program AST queries (effects, pairing, registration)",
              "Alarms only on definite refutation of an obligation by the abstract semantics, or on a construct that the stated query rule forbids; undecided "
              "obligations never alarm. Trusts the clang front end, the interpreter's transfer functions and its models of the C++ standard library."),
}
