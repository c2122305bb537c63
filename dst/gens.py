"""Shared generators: buffer sizes, fault placement, schedules."""
BUFS = [1, 2, 3, 7, 16, 61, 128, 512, 4096, 8192, 8192]

ERRS = {
    "read": ["eio", "eio", "short", "eintr"],
    "write": ["eio", "enospc", "part", "short", "eintr"],
    "open": ["eio", "emfile", "eacces"],
    "close": ["eio", "enospc"],
    "seek": ["eio"],
    "remove": ["eacces", "eio"],
    "rename": ["eio", "enospc"],
    "mkdir": ["enospc"],
    "trunc": ["eio"],
    "proc": ["eio"],
    "fsync": ["eio"],
}


def bufsize(rng):
    return rng.choice(BUFS)


def counts(res, phases):
    """[(phase, cat, n)] of simulated system calls the undisturbed run made."""
    out = []
    for k, n in sorted(res["counts"].items()):
        ph, cat = k.rsplit("|", 1)
        if ph in phases and n > 0:
            out.append((ph, cat, n))
    return out


def faults(rng, res, phases, cats=None, kmax=3, persist=0.1, exclude=()):
    """Transient or persistent failures placed inside what the undisturbed run did."""
    av = [(p, c, n) for p, c, n in counts(res, phases) if c in ERRS and (cats is None or c in cats) and (p, c) not in exclude]
    if not av:
        return []
    k = rng.choice([1, 1, 1, 2, 2, 3][:3 + kmax])
    out = []
    for _ in range(k):
        # half of the time pick by category, half by number of calls
        if rng.random() < 0.5:
            p, c, n = rng.choice(av)
        else:
            p, c, n = rng.choices(av, weights=[a[2] for a in av])[0]
        out.append({"ph": p, "cat": c, "at": rng.randint(1, n), "kind": rng.choice(ERRS[c]),
                    "arg": rng.choice([0.01, 0.3, 0.5, 0.9, 0.99]),
                    "count": -1 if rng.random() < persist else rng.choice([1, 1, 1, 2, 3])})
    return out


def crash(rng, res, phases, at=None):
    """A process crash at one simulated system call: before it, after it, or with a write torn."""
    av = [(p, n) for p, c, n in counts(res, phases) if c == "any"]
    if not av:
        return None
    if rng.random() < 0.5:
        # inside a write, where bytes may be torn
        wr = [(p, n) for p, c, n in counts(res, phases) if c == "write"]
        if wr:
            p, n = rng.choice(wr)
            return {"ph": p, "cat": "write", "at": rng.randint(1, n), "kind": "crash", "arg": rng.choice([0, 0.1, 0.3, 0.5, 0.7, 0.9, 1])}
    p, n = rng.choices(av, weights=[a[1] for a in av])[0]
    return {"ph": p, "cat": "any", "at": rng.randint(1, n), "kind": "crash", "arg": rng.choice([0, 0, 1])}


def preempts(rng, steps, nclients, kmax=4):
    """A small number of forced switches at random steps (bounded pre-emption)."""
    k = rng.randint(1, kmax)
    out = sorted([rng.randint(1, max(1, steps)), rng.randint(0, nclients - 1)] for _ in range(k))
    return out


ERROR_KINDS = ("eio", "enospc", "eacces", "emfile", "diskfull", "crash", "spawn", "fail", "killed")


def errors_fired(world):
    """How many faults that may legitimately surface as an error have happened so far."""
    return sum(n for k, n in world.fired.items() if k.rsplit(":", 1)[-1] in ERROR_KINDS)


def wipe(v):
    """Empty the lists a caller owns, nested ones first."""
    if isinstance(v, list):
        for x in v:
            wipe(x)
        v.clear()
