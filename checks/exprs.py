"""CEL expressions by shape: every choice of form is a solver variable."""
from __future__ import annotations

# A reference to the entry N of the variable V; {n} its name, {e} escaped.
DOTTED = ["@V.@N", "(@V).@N", "((@V)).@N", ".@V.@N", "@V . @N", "@V\n  .@N", "@V. // named\n@N"]
INDEXED = ["@V['@N']", '@V["@N"]', "(@V)['@N']", ".@V['@N']", "@V[('@N')]", "@V[r'@N']", "@V['''@N''']", '@V["""@N"""]', "@V [ '@N' ]", "@V['@E']", "@V['@O']", '@V["@U"]', "@V[\n'@N'\n]"]
REFS = DOTTED + INDEXED

SUFFIXES = ["", ".b", ".b.c", "['k']", "[0]", "[0].b", ".b[1].c", ".f()", ".f(1).g", ".f(1)[0]", "[inputs.i]", "[1 + 1]", "[-1]", "[!x]", "['']", "[inputs['i']].z", "{}", "{a: 1}", "{}.b"]

# @ is the expression inside.
CONTEXTS = ["@", "(@)", "[@]", "[1, @]", "{'k': @}", "{@: 1}", "@ == 1", "1 != @", "@ + 'x'", "'x' + @", "-@", "!@", "@ ? 1 : 2", "inputs.c ? @ : 2", "inputs.c ? 1 : @", "@ && true", "false || @",
            "@ in [1]", "1 in @", "@ < 1", "1 >= @", "@ * 2", "7 % @", "has(@)", "size(@)", "f(1, @)", ".g(@)", "[1].map(x, @)", "@.map(x, x)", "[1].filter(x, @)", "[1].all(x, @)", "[1].exists(x, @)",
            "[1].exists_one(x, @)", "@.filter(x, x.ok)", "inputs[@]", "inputs.m[@].b", "inputs.f(@)", "@.f(1)", "@.f(1).b", "@[0]", "@['k'].z", "(@).b", "(@)[1]", "[@][0]", "{'a': @}.a", "f(@).b", "f(@)[0]",
            "T{a: @}", "T{a: @}.a", "(@ + 1).b", "@.overlay({'x': 1})", "[[1], [2]].map(x, x.map(y, @))", "string(@)", "x.y(@)[0].z(@)", "{'a': {'b': [@]}}.a", "1 - -@", "!(!@)", "a.b.c(1, @, 2)"]


def closed(text):
    """Safe to put a member access after."""
    depth = 0
    for i, c in enumerate(text):
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif depth == 0 and c in " ?:+-*%<>=!&|\n":
            return False
    return True


def put(context, inner):
    if context not in ("@", "(@)") and not closed(inner) and any(f"@{c}" in context for c in ".["):
        inner = f"({inner})"
    elif context in ("-@", "!@", "1 - -@", "!(!@)") and not closed(inner):
        inner = f"({inner})"
    elif not closed(inner) and " " in context and "(" not in context and "[" not in context and "{" not in context:
        inner = f"({inner})"
    return context.replace("@", inner)


def reference(form, var, name):
    esc = f"\\x{ord(name[0]):02x}" + name[1:]
    octal = f"\\{ord(name[0]):03o}" + name[1:]
    uni = f"\\u{ord(name[0]):04x}" + name[1:]
    return form.replace("@V", var).replace("@N", name).replace("@E", esc).replace("@O", octal).replace("@U", uni)


# --------------------------------------------------- any expression, by grammar

ATOMS = ["1", "-1", "1u", "0x1F", "1.5", ".5", "1e3", "'s'", '""', "r'x'", "'''m'''", "b'x'", "true", "null", "[]", "{}", "x", ".x", "inputs", "steps", "parent", "f()", ".f()", "T{}", "'\\U00110000'"]
FORMS = ["(@)", "!@", "-@", "@ + y", "y - @", "@ * @", "@ == y", "@ in y", "@ ? y : @", "y ? @ : y", "@ && y", "y || @", "@.f", "@.f()", "@.f(y)", "y.f(@)", "@[y]", "y[@]", "@[@]", "@{}", "@{a: y}", "y{a: @}",
         "[@]", "[y, @]", "{@: y}", "{y: @}", "{'k': @}", "f(@)", "f(y, @)", ".f(@)", "has(@)", "@.map(x, x)", "y.map(x, @)", "@[0]", "@['k']", "@[1 + 1]", "@[-1]", "@[!y]", "@['']", "@[(y)]", "steps[@]", "inputs[@].z",
         "@ // note\n", "\t@ "]


def expression(sx, key, depth, atoms=ATOMS, forms=FORMS):
    text = sx.choice(f"{key}.atom", atoms)
    for i in range(depth):
        text = sx.choice(f"{key}.form{i}", forms).replace("@", text)
    return text
