"""Syntax trees seen from outside: walking, comparing and spoiling them without the code under test."""


def node_types():
    from fluent.syntax import ast
    return ast.BaseNode


def fields(node):
    return {k: v for k, v in vars(node).items() if not k.startswith("_")}


def snapshot(node, ids=True):
    """Everything that can be seen of a tree, with the identity of its parts if wanted"""
    base = node_types()

    def walk(v):
        if isinstance(v, base):
            return (type(v).__name__, id(v) if ids else 0, [(k, walk(x)) for k, x in sorted(fields(v).items())])
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, id(v) if ids else 0, [walk(x) for x in v])
        if isinstance(v, dict):
            return ("dict", id(v) if ids else 0, [(k, walk(x)) for k, x in v.items()])
        return v

    return walk(node)


def parts(node):
    """All nodes and lists of a tree: id -> object"""
    base = node_types()
    out = {}

    def walk(v):
        if isinstance(v, base):
            out[id(v)] = v
            for x in fields(v).values():
                walk(x)
        elif isinstance(v, (list, dict)):
            out[id(v)] = v
            for x in (v if isinstance(v, list) else v.values()):
                walk(x)
        elif isinstance(v, tuple):
            for x in v:
                walk(x)

    walk(node)
    return out


def spoil(node, r=0):
    """Change everything in a tree that can be changed"""
    for p in list(parts(node).values()):
        if isinstance(p, list):
            p.reverse()
            p.append("spoilt")
        elif isinstance(p, dict):
            p["spoilt"] = 1
        else:
            for k, v in fields(p).items():
                if isinstance(v, str):
                    setattr(p, k, v + "spoilt")
                elif isinstance(v, (bool, int)):
                    setattr(p, k, -1)


def nodes_in_order(tree):
    """All nodes of a tree, parents first"""
    base = node_types()
    out = []

    def walk(v):
        if isinstance(v, base):
            out.append(v)
            for x in fields(v).values():
                walk(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                walk(x)

    walk(tree)
    return out


def alone(fn):
    """The (JSON) result of fn() in a process of its own, which shares nothing with this one"""
    import json
    import os
    import traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = json.dumps({"ok": fn()})
        except BaseException:
            data = json.dumps({"error": traceback.format_exc()[-2000:]})
        try:
            data = data.encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    res = json.loads(data)
    if "error" in res:
        raise RuntimeError(res["error"])
    return res["ok"]
