"""Scripted nondeterminism: every random choice the code asks torch for becomes a branch point that
is enumerated exhaustively (stateless search over choice sequences)."""
import torch

_REAL = dict(randint=torch.randint, multinomial=torch.multinomial, randperm=torch.randperm)


class Chooser:
    def __init__(self, prefix, max_len=64):
        self.prefix = list(prefix)
        self.trace = []  # (choice, arity)
        self.probs = []
        self.max_len = max_len

    def choose(self, n, weights=None):
        k = len(self.trace)
        ok = [i for i in range(n) if weights is None or weights[i] > 0]
        c = self.prefix[k] if k < len(self.prefix) else 0
        assert c < len(ok), "replay divergence"
        self.trace.append((c, len(ok)))
        return ok[c]


class scripted:
    """Context: torch.randint / multinomial / randperm ask the chooser."""

    def __init__(self, chooser):
        self.ch = chooser

    def __enter__(self):
        ch = self.ch

        def randint(low, high=None, size=None, *a, **kw):
            if high is None or isinstance(high, (tuple, torch.Size)):
                low, high, size = 0, low, high
            size = kw.pop("size", size)
            n = 1
            for s in size:
                n *= s
            return torch.tensor([low + ch.choose(int(high) - int(low)) for _ in range(n)]).reshape(tuple(size))

        def multinomial(probs, num_samples, replacement=False, **kw):
            w = [float(x) for x in probs]
            ch.probs.append(w)
            assert num_samples == 1
            return torch.tensor([ch.choose(len(w), w)])

        def randperm(n, *a, **kw):
            left = list(range(int(n)))
            out = []
            while left:
                out.append(left.pop(ch.choose(len(left))) if len(left) > 1 else left.pop())
            return torch.tensor(out, dtype=torch.int64)

        torch.randint, torch.multinomial, torch.randperm = randint, multinomial, randperm
        return ch

    def __exit__(self, *a):
        torch.randint, torch.multinomial, torch.randperm = _REAL["randint"], _REAL["multinomial"], _REAL["randperm"]


def explore(run, limit=200000):
    """run(chooser) executes once under scripted choices; yields (chooser, result) for every choice
    sequence (depth-first over all branch points)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        with scripted(ch):
            r = run(ch)
        n += 1
        yield ch, r
        if n >= limit:
            raise RuntimeError("choice space larger than the limit")
        for k in range(len(ch.trace) - 1, len(prefix) - 1, -1):
            c, ar = ch.trace[k]
            for alt in range(ar - 1, c, -1):
                stack.append([x for x, _ in ch.trace[:k]] + [alt])
