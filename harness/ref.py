"""Independent reference definitions used as oracles."""


def reversals(x):
    """ASTM E1049 reversals: first sample, every strict change of direction
    (plateaus collapsed), last sample.  Returns values."""
    y = [x[0]]
    for v in x[1:]:
        if not bool(v == y[-1]):
            y.append(v)
    if len(y) < 2:
        return y
    out = [y[0]]
    for i in range(1, len(y) - 1):
        up1 = bool(y[i] > y[i - 1])
        up2 = bool(y[i + 1] > y[i])
        if up1 != up2:
            out.append(y[i])
    out.append(y[-1])
    return out


def astm(rev):
    """ASTM E1049-85 section 5.4.4 three-point rainflow counting on a list of
    reversals: list of (range, mean, count)."""
    pts = []
    cyc = []
    todo = list(rev)
    while todo:
        pts.append(todo.pop(0))
        while len(pts) >= 3:
            x = abs(pts[-1] - pts[-2])
            y = abs(pts[-2] - pts[-3])
            if bool(x < y):
                break
            m = (pts[-2] + pts[-3]) / 2
            if len(pts) == 3:  # Y contains the starting point
                cyc.append((y, m, 0.5))
                pts.pop(0)
            else:
                cyc.append((y, m, 1.0))
                del pts[-3:-1]
    for a, b in zip(pts[:-1], pts[1:]):
        cyc.append((abs(b - a), (a + b) / 2, 0.5))
    return cyc, pts


def residue(rev):
    """the points between which half cycles are counted"""
    pts, out = [], []
    for v in rev:
        pts.append(v)
        while len(pts) >= 3:
            if bool(abs(pts[-1] - pts[-2]) < abs(pts[-2] - pts[-3])):
                break
            if len(pts) == 3:
                out.append(pts.pop(0))
            else:
                del pts[-3:-1]
    return out + pts
