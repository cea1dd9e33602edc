"""Which models and which random profiles decide which property."""


def extra(module):
    def run(check):
        import importlib
        importlib.import_module(module).run(check)
    return run


ALL = ["mixed", "wrong", "relate", "fuse", "append", "loose", "classes", "joins", "points", "io", "read", "df", "query", "pickle", "names"]

PLANS = {
    "C01": dict(families=["relate", "append", "tjoins"], profiles=["mixed", "relate", "append", "joins", "loose", "points"]),
    "C02": dict(families=["fuse", "append", "loose"], profiles=["mixed", "fuse", "append", "loose", "classes", "points", "joins"]),
    "C03": dict(families=["append", "loose", "fuse"], profiles=["mixed", "append", "loose", "fuse", "classes", "relate", "joins"]),
    "C04": dict(families=["fuse", "append"], profiles=["mixed", "fuse", "append", "classes", "query", "joins", "points"]),
    "C05": dict(families=["relate", "relate3"], profiles=["relate", "read", "mixed"]),
    "C06": dict(families=["relate", "relate3", "fuseraw"], profiles=["relate", "read", "mixed"]),
    "C07": dict(families=["fuse", "fuseraw"], profiles=["fuse", "mixed"]),
    "C08": dict(families=["append"], profiles=["append", "append", "mixed", "names"]),
    "C09": dict(families=["joins", "io"], profiles=["joins", "points", "io"]),
    "C10": dict(families=["joins", "tjoins", "pjoins"], profiles=["joins", "joins", "points"]),
    "C11": dict(families=["io"], profiles=["io"]),
    "C12": dict(families=["classes"], profiles=["classes", "classes", "pickle"]),
    "C13": dict(families=["classes", "pickon"], profiles=["classes", "read", "append", "pickle", "loose"]),
    "C14": dict(families=["read", "readflat"], profiles=["read", "read", "io"]),
    "C15": dict(families=["query", "gridq"], profiles=["query", "points"]),
    "C16": dict(families=["points", "pjoins"], profiles=["points"]),
    "C17": dict(families=["df", "griddf"], profiles=["df"]),
    "C18": dict(families=["fuse", "append"], profiles=ALL),
    "C19": dict(families=["append", "loose", "tjoins"], profiles=["wrong", "append", "loose", "names", "joins", "classes", "read", "mixed"]),
    "C20": dict(families=["loose"], profiles=["loose", "loose", "append"]),
    "C21": dict(families=["names", "io"], profiles=["names", "classes", "read", "append", "io"]),
    "C23": dict(families=["pick", "pickon"], profiles=["pickle"]),
    "C24": dict(families=["validobj", "valid", "loose"], profiles=["loose", "relate"]),
    "C22": dict(extra=[extra("polar")]),
    "C25": dict(extra=[extra("classes")]),
    "C26": dict(extra=[extra("lists")]),
}
