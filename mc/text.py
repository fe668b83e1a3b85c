"""Independent printers for concrete syntax (used to feed the parsers)."""
SYM = {"and": "&", "or": "|", "imp": "->", "iff": "<->"}
SYM2 = {"and": "&&", "or": "||", "imp": ">>", "iff": "<->"}
CONST = {
    "pl": {"true": "true", "false": "false"},
    "ltl": {"true": "tt", "false": "ff", "ptrue": "true", "pfalse": "false"},
    "pltl": {"true": "tt", "false": "ff", "ptrue": "true", "pfalse": "false"},
    "ldl": {"true": "tt", "false": "ff"},
}


def full(t, logic, sym=SYM):
    """Fully bracketed text."""
    tag = t[0]
    if tag == "atom":
        return t[1]
    if tag in CONST.get(logic, {}):
        return CONST[logic][tag]
    if tag == "not":
        return "!(" + full(t[1], logic, sym) + ")"
    if tag in sym:
        return (" " + sym[tag] + " ").join("(" + full(x, logic, sym) + ")" for x in t[1:])
    if tag in ("dia", "box"):
        o, c = "<>" if tag == "dia" else "[]"
        return o + full(t[1], "re", sym) + c + "(" + full(t[2], "ldl", sym) + ")"
    if tag == "prop":
        return "(" + full(t[1], "pl", sym) + ")"
    if tag == "test":
        return "(" + full(t[1], "ldl", sym) + ")?"
    if tag == "star":
        return "(" + full(t[1], "re", sym) + ")*"
    if tag in ("seq", "union"):
        return (";" if tag == "seq" else "+").join("(" + full(x, "re", sym) + ")" for x in t[1:])
    if tag in ("U", "W", "R", "M", "S", "T"):
        return (" " + tag + " ").join("(" + full(x, logic, sym) + ")" for x in t[1:])
    name = "X[!]" if tag == "X!" else tag
    return name + "(" + full(t[1], logic, sym) + ")"
