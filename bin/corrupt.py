"""Executions that were accepted, spoilt in one observation each: what the
contract has to reject, for the property it has to reject it for. A guard
against a judge that has gone blind."""
import copy

E9 = 10 ** 9


def num(x):
    return ((x[0] * E9 + x[1]) * E9 + x[2]) * E9 + x[3]


def lim(n):
    return [n // E9 ** 3, n // E9 ** 2 % E9, n // E9 % E9, n % E9]


def plus(x, d):
    return lim(num(x) + d)


def _edit(tr, i, f):
    c = dict(tr, ev=tr["ev"][:i] + [copy.deepcopy(tr["ev"][i])] + tr["ev"][i + 1:])
    f(c["ev"][i])
    return c


def _sleeps(tr):
    """Yields (i, event, deadlines before it)."""
    dl = {}
    for i, e in enumerate(tr["ev"]):
        yield i, e, dl
        if e["p"]:
            return
        if e["o"] in ("sn", "su", "sr", "sb"):
            dl[e["a"][0]] = num(e["r"][0])
        elif e["o"] == "sd":
            dl.pop(e["a"][0], None)
        for x in e["rx"]:
            dl.pop(x[1], None)
            if x[2]:
                dl[x[2]] = num(x[4])


def c01(tr):
    for i, e, dl in _sleeps(tr):
        if i > 8 and e["o"] in ("sp", "host", "cb"):
            for k, d in dl.items():
                if d > num(e["now"]) and k not in e["el"]:
                    yield _edit(tr, i, lambda x: x["el"].append(k))
                    break


def c02(tr):
    for i, e, dl in _sleeps(tr):
        if i > 8 and e["o"] in ("cb", "host") and e["wk"]:
            yield _edit(tr, i, lambda x: x.update(wk=[]))
        elif e["o"] == "sp" and e["r"] == [1]:
            yield _edit(tr, i, lambda x: x.update(r=[0]))


def c03(tr):
    for i, e, dl in _sleeps(tr):
        if e["o"] in ("sr", "sb"):
            yield _edit(tr, i, lambda x: x["r"].__setitem__(0, plus(x["r"][0], 1)))


def c04(tr):
    for i, e in enumerate(tr["ev"]):
        if e["arm"]:
            yield _edit(tr, i, lambda x: x["arm"][0].__setitem__(1, -1))


def _tick(tr, late):
    due = {}
    for i, e in enumerate(tr["ev"]):
        if e["o"] == "ip" and e["r"]:
            k, t = e["a"][0], num(e["r"][0])
            if late and due.get(k):
                yield _edit(tr, i, lambda x: x["r"].__setitem__(0, plus(x["r"][0], 1)))
            if not late and k not in due:
                yield _edit(tr, i, lambda x: x["r"].__setitem__(0, plus(x["r"][0], 1)))
            due[k] = num(tr["ev"][i - 1]["now"]) > t + 5000000
        elif e["o"] in ("ir", "ib"):
            due.pop(e["a"][0], None)


def c05(tr):
    return _tick(tr, False)


def c06(tr):
    return _tick(tr, True)


def c07(tr):
    for i, e in enumerate(tr["ev"]):
        if e["o"] == "tp" and e["r"] and e["r"][0] == 0:
            yield _edit(tr, i, lambda x: x["r"].__setitem__(0, 2))
        elif e["o"] == "tp" and e["r"] and e["r"][0] == 1:
            yield _edit(tr, i, lambda x: x["r"].__setitem__(1, x["r"][1] + 1))


def c08(tr):
    frozen = False
    for i, e in enumerate(tr["ev"]):
        if e["p"]:
            return
        if e["o"] == "pa":
            frozen = True
        elif e["o"] == "re":
            frozen = False
        elif frozen and e["o"] in ("host", "cb", "ad"):
            yield _edit(tr, i, lambda x: x.update(now=plus(x["now"], 1)))


def c09(tr):
    frozen = False
    for i, e in enumerate(tr["ev"]):
        if e["p"]:
            return
        if e["o"] == "pa":
            frozen = True
        elif e["o"] == "re":
            frozen = False
        elif frozen and e["o"] == "ad" and e["wk"]:
            yield _edit(tr, i, lambda x: x.update(wk=[], el=[]))


def c10(tr):
    for i, e in enumerate(tr["ev"]):
        if e["o"] in ("qi", "qm", "qp", "qk") and not e["p"]:
            yield _edit(tr, i, lambda x: x["qi"].__setitem__(0, x["qi"][0] + 1))


def c11(tr):
    for i, e in enumerate(tr["ev"]):
        if e["o"] == "qp" and e["r"] and e["r"][0] == 1:
            yield _edit(tr, i, lambda x: x["r"].__setitem__(3, plus(x["r"][3], 1)))


def c12(tr):
    for i, e in enumerate(tr["ev"]):
        if e["o"] == "qp" and e["r"] == [0]:
            yield _edit(tr, i, lambda x: x.update(r=[2]))
        if e["o"] in ("cb", "host") and e["wk"]:
            yield _edit(tr, i, lambda x: x.update(wk=[]))


def c13(tr):
    for i, e in enumerate(tr["ev"]):
        if e["o"] in ("qm",) and e["r"] and e["r"][0] == 1:
            yield _edit(tr, i, lambda x: x["r"].__setitem__(1, x["r"][1] + 1))


def c18(tr):
    first = True
    for i, e in enumerate(tr["ev"]):
        if e["o"] == "mm":
            if not first:
                yield _edit(tr, i, lambda x: x["r"].__setitem__(0, x["r"][0] + 60000))
            first = False
        elif e["o"] == "host" and "hw" in e:
            yield _edit(tr, i, lambda x: x["hw"].append(99999))


def _val(ops, d):
    def f(tr):
        for i, e in enumerate(tr["ev"]):
            if e["o"] in ops and e["r"] and not e["p"]:
                j = len(e["r"]) - 1
                if isinstance(e["r"][j], list) and len(e["r"][j]) == 4:
                    yield _edit(tr, i, lambda x: x["r"].__setitem__(j, plus(x["r"][j], d)))
    return f


CORRUPT = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
           "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": _val(("xa",), 1), "C15": _val(("xn",), 5000),
           "C16": _val(("ya", "yd"), 1000000), "C17": _val(("yx",), 1000000), "C18": c18}
