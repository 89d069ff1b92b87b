"""Explicit-state exploration of a reference model: which operation sequences to replay."""


def transitions(init, ops, step, depth, full=1):
    """All paths (tuples of operations) that end with one transition of the model's state graph:
    every operation in every state reachable with less than `depth` operations, each state
    reached by one shortest path, and in addition all sequences of up to `full` operations."""
    seen = {init}
    frontier = [(init, ())]
    paths = []
    nstates = 1
    for d in range(depth):
        nxt = []
        for state, path in frontier:
            for op in ops(state):
                s2 = step(state, op)
                if s2 is None:            # not applicable
                    continue
                p2 = path + (op,)
                paths.append(p2)
                if s2 not in seen:
                    seen.add(s2)
                    nxt.append((s2, p2))
                elif d + 1 < full:
                    nxt.append((s2, p2))
        frontier = nxt
    return paths, seen


def run(init, step, path):
    states = [init]
    for op in path:
        states.append(step(states[-1], op))
    return states
