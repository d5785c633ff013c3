"""Random programs as tokens of specs/FlowMachine.tla."""


class FlowGen:
    def __init__(self, rnd):
        self.r = rnd

    def tokens(self, n):
        r = self.r
        self.left = n
        toks = []
        while self.left > 0:
            toks += self.stmt(3, False)
        while toks and toks[-1] == ".":
            toks.pop()
        return toks or ["s"]

    def block(self, d, loop):
        r = self.r
        res = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if self.left <= 0 or res and res[-1] in ("return", "raise", "break", "continue"):
                break
            res += self.stmt(d, loop)
        return res

    def stmt(self, d, loop):
        r = self.r
        self.left -= 1
        x = r.random()
        if d == 0 or x < 0.3:
            y = r.random()
            if y < 0.45:
                return ["s"]
            return [r.choice((["break", "continue"] * 2 if loop else ["s"]) + ["return", "raise", "pass"])]
        k = r.choice(["if", "if", "while", "for", "with", "try", "try", "try", "match"])
        res = [k]
        if k == "match":
            for _ in range(r.choice([1, 2, 2])):
                res += [r.choice(["case", "guarded"])] + self.block(d - 1, loop)
            if r.random() < 0.4:
                res += ["default"] + self.block(d - 1, loop)
            return res + ["."]
        res += self.block(d - 1, loop or k in ("while", "for"))
        if k in ("if", "while", "for"):
            if r.random() < 0.4:
                res += ["else"] + self.block(d - 1, loop)
        if k == "try":
            h = r.choice([0, 1, 1, 2])
            for i in range(h):
                res += ["exceptall" if i == h - 1 and r.random() < 0.3 else "except"] + self.block(d - 1, loop)
            if h and r.random() < 0.3:
                res += ["else"] + self.block(d - 1, loop)
            if not h or r.random() < 0.4:
                res += ["finally"] + self.block(d - 1, loop)
        return res + ["."]
