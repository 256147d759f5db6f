"""Writes the same content in many ways: YAML of all styles, and JSON."""
import json
import re

PLAIN = re.compile(r"^[A-Za-z_/][A-Za-z0-9_./\-]*$")
RESERVED = re.compile(r"^(?:y|n|yes|no|on|off|true|false|null|nan|inf|~|[.].*)$", re.I)


def shuffled(x, rng):
    """The same content, with the keys in another order."""
    if isinstance(x, dict):
        keys = list(x)
        rng.shuffle(keys)
        return {k: shuffled(x[k], rng) for k in keys}
    if isinstance(x, list):
        return [shuffled(e, rng) for e in x]
    return x


def as_json(x, rng):
    kw = dict(ensure_ascii=rng.random() < 0.5)
    r = rng.random()
    if r < 0.3:
        kw["separators"] = (",", ":")
    elif r < 0.7:
        kw["indent"] = rng.choice([1, 2, 4, "\t"])
    text = json.dumps(x, **kw)
    if rng.random() < 0.3:
        text = "\n \t" + text + "\n\n"
    return text


class Yaml:
    def __init__(self, rng):
        self.rng = rng
        self.comments = rng.random() < 0.6
        self.flow = rng.choice([0, 0.05, 0.3])
        self.anchors = rng.random() < 0.4
        self.step = rng.choice([1, 2, 4])
        self.seen = {}  # Content -> anchor
        self.next = 0

    def scalar(self, x, key=False):
        rng = self.rng
        if isinstance(x, str):
            r = rng.random()
            if PLAIN.match(x) and not RESERVED.match(x) and r < 0.6:
                return x
            if r < 0.8 and x.isprintable() and x.isascii():
                return "'" + x.replace("'", "''") + "'"
            # JSON escapes are the ones of YAML, apart from surrogates
            return json.dumps(x, ensure_ascii=all(ord(c) < 0x10000 for c in x) and rng.random() < 0.5)
        return json.dumps(x)

    def comment(self, pad):
        if self.comments and self.rng.random() < 0.1:
            return pad + "# " + self.rng.choice(["comment", "type: string", "- x", "'\"{}[]: #", "$ref: '#/nothing'"]) + "\n"
        return ""

    def inline(self, x):
        """Flow style."""
        rng = self.rng
        if isinstance(x, dict):
            sp = rng.choice(["", " "])
            return "{" + sp + ", ".join(self.scalar(k, True) + ": " + self.inline(v) for k, v in x.items()) + sp + "}"
        if isinstance(x, list):
            return "[" + ", ".join(self.inline(e) for e in x) + rng.choice(["", " "]) + "]"
        return self.scalar(x)

    def node(self, x, pad):
        """What follows "key:" or "-"."""
        rng = self.rng
        if not isinstance(x, (dict, list)):
            end = "  # comment" if self.comments and rng.random() < 0.05 else ""
            return " " + self.scalar(x) + end + "\n"
        anchor = ""
        if self.anchors and x and isinstance(x, dict):
            k = json.dumps(x, sort_keys=True)
            if k in self.seen:
                if rng.random() < 0.7:
                    return " *" + self.seen[k] + "\n"
            elif rng.random() < 0.5:
                self.next += 1
                self.seen[k] = "a%d" % self.next
                anchor = " &a%d" % self.next
        if not x or rng.random() < self.flow:
            return anchor + " " + self.inline(x) + "\n"
        return anchor + "\n" + self.block(x, pad + " " * self.step)

    def block(self, x, pad):
        out = ""
        if isinstance(x, dict):
            for k, v in x.items():
                out += self.comment(pad)
                if self.rng.random() < 0.01:
                    out += "\n"
                out += pad + self.scalar(k, True) + ":" + self.node(v, pad)
        else:
            for e in x:
                out += self.comment(pad)
                out += pad + "-" + self.node(e, pad)
        return out

    def text(self, x):
        head = self.rng.choice(["", "", "---\n", "# A document\n", "%YAML 1.1\n---\n"])
        return head + self.block(x, "") + self.rng.choice(["", "\n", "...\n"])


def as_yaml(x, rng):
    return Yaml(rng).text(x)
