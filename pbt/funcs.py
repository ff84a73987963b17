""" Functions with any signature, from data. """
NONE = object()
POS, ANY, VAR, KW, VARKW = "pos", "any", "var", "kw", "varkw"


def param(name, ann=NONE, kind=ANY, default=NONE):
    """ A parameter. """
    return dict(name=name, ann=ann, kind=kind, default=default)


def signature(params, ret=NONE, space=None):
    """ The text of a parameter list and return annotation; objects go into ``space``. """
    space = {} if space is None else space
    parts, slash_due, star_done = [], False, False
    for index, item in enumerate(params):
        kind, name = item["kind"], item["name"]
        if slash_due and kind != POS:
            parts.append("/")
            slash_due = False
        if kind == POS:
            slash_due = True
        if kind == VAR:
            star_done = True
        if kind == KW and not star_done:
            parts.append("*")
            star_done = True
        text = {VAR: "*", VARKW: "**"}.get(kind, "") + name
        if item["ann"] is not NONE:
            space[f"_ann{index}"] = item["ann"]
            text += f": _ann{index}"
        if item["default"] is not NONE:
            space[f"_def{index}"] = item["default"]
            text += f" = _def{index}"
        parts.append(text)
    if slash_due:
        parts.append("/")
    text = "(" + ", ".join(parts) + ")"
    if ret is not NONE:
        space["_ret"] = ret
        text += " -> _ret"
    return text


def function(params, ret, body, name="func", module="generated", first=""):
    """
    ``def name(params) -> ret: return body({name: value, ...})``. ``first``
    is the name of an unannotated first parameter (self or cls), if any.
    """
    space = {"_body": body, "__name__": module}
    items = ([param(first, kind=POS if params and params[0]["kind"] == POS else ANY)] if first else []) + params
    text = signature(items, ret, space)
    names = [p["name"] for p in items]
    inner = ", ".join(f"{n!r}: {n}" for n in names)
    exec(f"def {name}{text}:\n    return _body({{{inner}}})\n", space)  # pylint: disable=exec-used
    return space[name]


FORMS = ["function", "method", "classmethod", "staticmethod"]


def member(form, params, ret, body, decorator=None, whole=None, local=False, name="func", extra=""):
    """
    The function as a callable: a plain function, or a member of a class
    ``Gen`` looked up on an instance (a method) or on the class. ``decorator``
    goes on the function, ``whole`` on the class. ``local``: the class is
    defined in a function; ``extra``: more lines of the class.
    """
    space = {"_body": body, "__name__": "generated"}
    first = {"method": "self", "classmethod": "cls"}.get(form)
    kind = POS if params and params[0]["kind"] == POS else ANY
    items = ([param(first, kind=kind)] if first else []) + params
    text = signature(items, ret, space)
    inner = ", ".join(f"{p['name']!r}: {p['name']}" for p in params)
    lines = []
    if form in ("classmethod", "staticmethod"):
        lines.append(f"@{form}")
    if decorator is not None:
        space["_deco"] = decorator
        lines.append("@_deco")
    lines += [f"def {name}{text}:", f"    return _body({{{inner}}})"]
    if form != "function":
        head = ["class Gen:"]
        if whole is not None:
            space["_whole"] = whole
            head.insert(0, "@_whole")
        lines = head + ["    " + line for line in lines + extra.splitlines()]
    if local:
        lines = ["def _outer():"] + ["    " + line for line in lines]
        lines += ["    return " + ("Gen" if form != "function" else name), "_made = _outer()"]
    exec("\n".join(lines) + "\n", space)  # pylint: disable=exec-used
    made = space["_made"] if local else space["Gen" if form != "function" else name]
    if form == "function":
        return made
    return getattr(made() if form == "method" else made, name)
