"""C12, C13: trait lists and trait sets."""
from .. import core, kept, tprobe


def c12(c):
    # every trait alone, then longer lists, on fields that implement everything
    keys = [[k] for k in tprobe.KEYS]
    def size(rng, s, k):
        i = s + k * core.JOBS
        if i < len(keys):
            return tprobe.named_list(rng, 0) + keys[i] + [x for x in tprobe.closure(keys[i]) if tprobe.TRAITS[x]["std"] and x not in keys[i]]
        return tprobe.named_list(rng, rng.choice([2, 2, 3, 4, 6, 9, 14]))
    tprobe.campaign(c, "list", 1200 if c.quick else 6400, size, 0, 2)


def c13(c):
    def size(rng, s, k):
        return tprobe.named_list(rng, rng.choice([1, 1, 2, 3, 5]))
    tprobe.campaign(c, "hold", 800 if c.quick else 6000, size, 6, 2)
    kept.run(c)
    tprobe.grid(c, core.base(c), "fields", tprobe.fields_grid(), tprobe.GRID_ITEMS)


CHECKS = {"C12": c12, "C13": c13}
