"""Generated behaviour of the network and of the server behind it."""
import base64
import gzip
import json

from sim import network

REFUSALS = ["refuse", "unreach", "stall", "reset", "perm", "emfile"]


def changelog(rng, cur):
    """A changelog, what it says of the running version: (lines, newest, relation)."""
    a, b, c = (int(x) for x in (cur.split(".") + ["0", "0"])[:3])
    lines = ["# Changelog", "All notable changes to this project are documented here.", ""] if rng.random() < 0.8 else []
    if rng.random() < 0.5:
        lines += ["## [Unreleased]", ""] + (["### Added", "- not yet [released] thing", ""] if rng.random() < 0.6 else [])
    relation = rng.choice(["newest", "newest", "older", "older", "older", "absent", "none"])
    newer = rng.randrange(1, 4) if relation in ("older", "absent") else 0
    vers = []
    if relation != "none":
        style = rng.randrange(4)
        for k in range(newer, 0, -1):
            vers.append([(a, b, c + k), (a, b + k, 0), (a + k, 0, 0), (a, b, int("%d%d" % (c, k)))][style])
        if relation != "absent":
            vers.append((a, b, c))
        for k in range(rng.randrange(0, 3)):
            vers.append((a, b, c - 1 - k) if c > k else (a, max(b - 1, 0), 9 - k) if b else (0, 0, 9 - k))
    if style_absent(vers):
        relation, vers, newer = "none", [], 0
    def name(k, v):
        if k < newer and odd:
            return ["%d.%d.%d-rc1", "v%d.%d.%d", "%d.%d.%d.dev4", "%d.%d.%d+build.7", "%d.%d.%d beta"][odd - 1] % v
        return "%d.%d.%d" % v

    odd = rng.randrange(1, 6) if rng.random() < 0.3 else 0
    for k, v in enumerate(vers):
        lines.append("## [%s]%s" % (name(k, v), rng.choice(["", " - 2023-01-%02d" % (k + 1), " (yanked)"])))
        lines.append("")
        for head in rng.sample(["### Added", "### Changed", "### Fixed"], rng.randrange(0, 3)):
            lines.append(head)
            for j in range(rng.randrange(1, 3)):
                lines.append("- change %d%d of %d.%d.%d%s" % (k, j, v[0], v[1], v[2], rng.choice(["", " with [a link](http://x)", " \u00e9\u03b1", " since %s" % cur, " ## heading"])))
            lines.append("")
    if vers and rng.random() < 0.5:
        lines += ["[%s]: https://x/%d" % (name(k, v), k) for k, v in enumerate(vers)]
    return lines, relation


def style_absent(vers):
    return not vers


def expected(lines, cur):
    """(newest version or None, lines that the notice gives, lines it does not)"""
    heads = [k for k, s in enumerate(lines) if s.startswith("## [") and not s.startswith("## [Unreleased]")]
    if not heads or lines[heads[0]].startswith("## [%s]" % cur):
        return None, [], []
    end = next((k for k in heads if lines[k].startswith("## [%s]" % cur)), len(lines))
    newest = lines[heads[0]][4:].split("]")[0]
    return newest, [s for s in lines[heads[0] : end] if s], [s for s in lines[end:] if s]


def body_of(lines, rng, plain=True):
    text = "\n".join(lines) + ("\n" if rng.random() < 0.8 else "")
    if rng.random() < 0.15:
        text = text.replace("\n", "\r\n")
    b = base64.b64encode(text.encode("utf-8")).decode()
    if rng.random() < 0.8:
        # as the service does
        b = "\n".join(b[i : i + 60] for i in range(0, len(b), 60)) + "\n"
    return json.dumps({"name": "CHANGELOG.md", "size": len(text), "encoding": "base64", "content": b})


def gen_answers(rng, body):
    """(answers, can be read: True, False or None when either is acceptable, label)"""
    k = rng.choice(["good"] * 6 + ["redirect", "chunked", "gzip", "status", "status", "content", "content", "content", "broken", "broken", "headers", "loop", "proto"])
    good, label = True, k
    before = []
    if k == "redirect":
        n = rng.choice([1, 1, 2, 5])
        for j in range(n):
            where = rng.choice(["https://api.github.com/repositories/%d/contents/CHANGELOG.md" % j, "/other/%d" % j, "https://raw.githubusercontent.com/x"])
            before.append([network.http(rng.choice([301, 302, 307, 308]), "", {"Location": where})])
        whole = network.http(200, body)
    elif k == "loop":
        how = rng.choice(["self", "nowhere", "bad", "scheme"])
        where = {"self": "https://api.github.com/x", "nowhere": "https://", "bad": "https://[::1/x", "scheme": "gopher://x/y"}[how]
        before = [[network.http(302, "", {"Location": where})] for _ in range(40)]
        whole, good, label = network.http(302, "", {"Location": where}), False, "redirect " + how
    elif k == "chunked":
        whole = network.http(200, body, chunked=True)
    elif k == "gzip":
        z = gzip.compress(body.encode(), mtime=0).decode("latin-1")
        if rng.random() < 0.4:
            z, good = z[: len(z) // 2], False
        whole = network.http(200, z, {"Content-Encoding": "gzip"})
        label = "gzip " + ("whole" if good else "cut")
    elif k == "status":
        s = rng.choice([201, 203, 204, 304, 400, 401, 403, 404, 418, 429, 500, 502, 503, 599])
        whole, good = network.http(s, body if rng.random() < 0.5 and s not in (204, 304) else '{"message": "no"}' if s not in (204, 304) else "", {"Retry-After": "60"} if s in (429, 503) else {}), None if s < 300 else False
        label = "status %d" % s
    elif k == "content":
        n = rng.randrange(12)
        bad = ["", "<html>Sign in to the network</html>", "[]", "null", "3", '{"message": "x"}', '{"content": null}', '{"content": 12}', '{"content": "!!!not base64!!!"}', '{"content": "QQ="}', body[: len(body) // 2],
               "[" * 100000][n]
        whole, good, label = network.http(200, bad), False, "content %d" % n
        if n == 8:
            good = None
    elif k == "headers":
        n = rng.randrange(5)
        h = [{"Content-Type": "text/plain; charset=klingon"}, {"X-Long": "a" * 70000}, {"X%d" % j: "1" for j in range(150)}, {"Set-Cookie": "\x00;;;=="}, {"Content-Encoding": "br, compress"}][n]
        whole, good, label = network.http(200, body, h), None, "headers %d" % n
    elif k == "proto":
        n = rng.randrange(5)
        whole = ["garbage without end", "HTTP/9.9 banana\r\n\r\n", "HTTP/1.1\r\n\r\n", "\r\n\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n" + body][n]
        good, label = None if n == 4 else False, "protocol %d" % n
    else:
        whole = network.http(200, body)
        if k == "broken":
            whole = network.http(200, body, length=len(body) + 50) if rng.random() < 0.3 else whole
            good = None if len(whole) > 0 and "Content-Length: %d" % (len(body) + 50) in whole else True
    pieces = [whole]
    if rng.random() < 0.5:
        cut = sorted({rng.randrange(1, max(len(whole), 2)) for _ in range(rng.choice([1, 2, 3]))})
        pieces = [whole[i:j] for i, j in zip([0] + cut, cut + [len(whole)])]
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 2])):
            pieces.insert(rng.randrange(len(pieces)), ["pause", rng.choice([0.5, 2.0, 4.0])])
        label += " slow"
    if k == "broken":
        what = rng.choice(["stall", "reset", "eof", "ssl"])
        at = rng.randrange(len(pieces))
        pieces[at:] = [[what]]
        good = False
        label = "broken by %s at piece %d" % (what, at)
    return before + [pieces], good, label


def gen_plan(rng, body):
    """(plan, changelog can be read, label)"""
    plan, ok, label = {}, True, []
    if rng.random() < 0.35:
        name = rng.choice(["ping", "ping", "dns", "connect", "tls", "send", "socket"])
        how = rng.choice({"ping": REFUSALS + ["slow"], "dns": ["fail", "again", "stall", "slow", "unicode"], "connect": REFUSALS + ["slow"], "tls": ["stall", "reset", "cert", "eof", "slow"],
                          "send": ["stall", "reset", "slow"], "socket": ["emfile", "perm"]}[name])
        plan[name] = how
        label.append("%s %s" % (name, how))
        if how != "slow":
            ok = None if name == "ping" else False
    if rng.random() < 0.3:
        plan["addresses"] = rng.choice([2, 3, 4])
        label.append("%d addresses" % plan["addresses"])
    answers, good, l2 = gen_answers(rng, body)
    plan["answers"] = answers
    label.append(l2)
    if ok is True:
        ok = good
    return plan, ok, ", ".join(label)
