"""Everything callable in the base language, how many arguments it takes, and
values of every type to call it with."""

# name: (least, most) arguments; None for any number.
FUNCS = {
    "add": (0, None), "bool": (1, 1), "chan": (0, 1), "chan?": (1, 1), "cons": (2, 2), "cons?": (1, 1), "debug": (0, None), "div": (1, None),
    "equal?": (2, None), "ge?": (2, None), "gt?": (2, None), "le?": (2, None), "lt?": (2, None), "match": (2, 2), "mend": (2, None), "mod": (2, 2),
    "mul": (1, None), "null?": (1, 1), "number": (1, 1), "number?": (1, 1), "object?": (1, 1), "open": (2, 2), "pipe": (0, 0),
    "pipe?": (1, 1), "random": (0, 1), "rend": (2, 2), "sprintf": (1, None), "status": (1, 1), "string": (1, 1), "string?": (1, 1),
    "symbol": (1, 1), "symbol?": (1, 1), "sub": (1, None), "temp-fifo": (0, 0), "umask": (0, 1),
    "continuation?": (1, 1), "method?": (1, 1), "syntax?": (1, 1), "interpolate": (1, 1), "resolve": (1, 1), "resolves?": (1, 1), "splice": (1, 1),
    "trace": (0, 0), "wait": (0, None), "get": (1, 1), "eval": (1, 1), "set?": (1, 1), "unset": (1, 1), "cd": (0, 1), "command": (1, None),
    "exists": (0, None), "glob": (0, None), "jobs": (0, 0), "bg": (0, 1), "fg": (0, 1), "exit": (0, 1), "fatal": (0, 1),
}
# Commands whose arguments go through globbing first.
GLOBS = {"cd", "exists", "glob", "command"}
LIBRARY = {
    "eq?": (2, None), "ne?": (2, None), "list": (0, None), "not": (1, 1), "source": (1, 1), "map": (0, 0), "for": (2, 2), "import": (1, 1), "module": (1, 1),
    "here": (1, 1), "read": (0, 0), "read-line": (0, 0), "read-list": (0, 0), "seq": (1, 1), "math": (1, 1), "error": (0, None), "...": (2, 2),
    "write": (0, None), "write-line": (0, None), "prompt": (1, 1), "replace-make-prompt": (1, 1), "complete": (0, None), "quote": (1, 1),
    "quasiquote": (1, 1), "throw": (1, 1), "capture": (1, 1),
}
SYNTAXES = ["and", "or", "quote", "quasiquote", "object", "catch", "capture", "if", "block", "define", "set", "export", "spawn", "method", "syntax",
            "fn", "coalesce", "output-to", "append-output-to", "input-from", "output-clobbers", "output-errors-to", "pipe-output-to", "process-substitution",
            "mill", "show", "append-output-errors-to", "output-errors-clobbers", "pipe-output-errors-to"]
STR = {"format": (1, None), "length": (1, 1), "lower": (1, 1), "replace": (3, 4), "slice": (2, 3), "trim-prefix": (2, 2), "trim-suffix": (2, 2), "upper": (1, 1)}
LIST = {"append": (1, 1), "extend": (1, 1), "get": (0, 2), "head": (0, 0), "length": (0, 0), "reverse": (0, 0), "set-head": (1, 1), "set-tail": (1, 1),
        "slice": (1, 2), "tail": (0, 0)}
CONDUIT = {"close": (0, 0), "read": (0, 0), "read-line": (0, 0), "read-list": (0, 0), "reader-close": (0, 0), "write": (0, None), "write-line": (0, None),
           "writer-close": (0, 0)}
# Members of an environment (what e is in a method with an environment).
ENV = {"get": (1, 1), "set?": (1, 1), "unset": (1, 1), "eval": (1, 1), "resolve": (1, 1), "resolves?": (1, 1), "interpolate": (1, 1)}

# Values, as source text, of every type. The $v... are made by SETUP.
VALUES = ["foo", "'a b'", "''", "(|number 3|)", "(|number -1/2|)", "(|number 0|)", "(|status 1|)", "()", "(list 1 2 3)", "(cons 1 2)",
          "(quote (a (b) \"c\"))", "$vm", "$vs", "$vo", "$ve", "$vc", "$vp", "$vf", "$vk", "$vt", "0", "1", "-1", "20", "99999999999999999999", "1e400", "1/0",
          "a/b", "nosuch*", "~", "$'\\x01\\xff'", "\"q $vx\"", "(|symbol 'a b'|)", "(|symbol ''|)", "-i", "vx:", "=", "$write", "$if", "$str", "$sys", "else", "(cons (list 1) 2)",
          "(list $vm $vo)", "1.5", "0x1f", "$vl", "(nosuch)", "(add 1 2)", "$novar", "''''", "w", "r", "r-", "a", "*", "[", "$wait", "(splice (list 1 2))", "true", "inf", "-0"]
SETUP = """define vx 5
define vl: list 4 5 6
define vm: method (a) {
 return $a
}
define vs: syntax (a) e {
 return $a
}
define vo: object {
 define hidden 1
 export shown 2
}
define ve: (method () e {
 return $e
})
define vc: chan 9
vc write 1
vc write (list 2)
vc writer-close
define vp: pipe
vp writer-close
define vf: open rw vfile
define vk: (method () {
 return $return
})
define vt: spawn {
 add 1 1
}
wait $vt
"""
