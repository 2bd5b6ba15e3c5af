"""Image comparison against direct evaluation of structural similarity."""
import contextlib
import os

import cv2
import numpy as np
from scipy import ndimage

from vh import call, expect, expect_near, facet, fail, ints, lists, pick, quiet, raises, scratch, st
import metcalcpy.compare_images as ci
from metcalcpy.compare_images import CompareImages


@st.composite
def pair(draw):
    h, w = draw(ints(7, 26)), draw(ints(7, 26))
    kind = draw(pick('flat', 'noise', 'blocks', 'gradient'))
    change = draw(st.lists(st.fixed_dictionaries({'y': ints(0, h - 1), 'x': ints(0, w - 1), 'h': ints(1, 8), 'w': ints(1, 8), 'rgb': lists(ints(0, 255), 3, 3), 'how': pick('set', 'set', 'invert', 'add')}), min_size=0, max_size=3))
    return {'h': h, 'w': w, 'kind': kind, 'seed': draw(ints(0, 10 ** 6)), 'base': draw(lists(ints(0, 255), 3, 3)), 'change': change, 'swap': draw(st.booleans())}


def images(c):
    r = np.random.default_rng(c['seed'])
    h, w = c['h'], c['w']
    a = np.zeros((h, w, 3), np.uint8) + np.array(c['base'], np.uint8)
    if c['kind'] == 'noise':
        a = r.integers(0, 256, (h, w, 3)).astype(np.uint8)
    elif c['kind'] == 'blocks':
        for _ in range(4):
            y, x = r.integers(0, h), r.integers(0, w)
            a[y:y + 6, x:x + 6] = r.integers(0, 256, 3)
    elif c['kind'] == 'gradient':
        a[..., 0] = np.linspace(0, 255, w).astype(np.uint8)
        a[..., 1] = np.linspace(0, 200, h).astype(np.uint8)[:, None]
    b = a.copy()
    for k in c['change']:
        s = np.s_[k['y']:k['y'] + k['h'], k['x']:k['x'] + k['w']]
        b[s] = 255 - b[s] if k['how'] == 'invert' else b[s] + np.uint8(k['rgb'][0] % 5 + 1) if k['how'] == 'add' else np.array(k['rgb'], np.uint8)
    return (b, a) if c['swap'] else (a, b)


def grey(a):
    return cv2.cvtColor(a, cv2.COLOR_BGR2GRAY).astype(float)


def similarity(a, b):
    """Local structural similarity in 7 by 7 windows, and its mean over the windows inside the image."""
    n = 7
    pa, pb = (np.pad(grey(x), n // 2, mode='symmetric') for x in (a, b))
    wa, wb = (np.lib.stride_tricks.sliding_window_view(x, (n, n)) for x in (pa, pb))
    ma, mb = wa.mean((2, 3)), wb.mean((2, 3))
    va, vb = wa.var((2, 3), ddof=1), wb.var((2, 3), ddof=1)
    cov = ((wa - ma[..., None, None]) * (wb - mb[..., None, None])).sum((2, 3)) / (n * n - 1)
    c1, c2 = (0.01 * 255) ** 2, (0.03 * 255) ** 2
    s = (2 * ma * mb + c1) * (2 * cov + c2) / ((ma ** 2 + mb ** 2 + c1) * (va + vb + c2))
    k = n // 2
    return s[k:-k, k:-k].mean(), s


def boxes(thresh, image):
    """The image with a red box around each outermost marked region."""
    filled = ndimage.binary_fill_holes(thresh > 0)
    lab, _ = ndimage.label(filled, np.ones((3, 3)))
    out = image.copy()
    for ys, xs in ndimage.find_objects(lab):
        cv2.rectangle(out, (xs.start, ys.start), (xs.stop, ys.stop), (0, 0, 255), 2)
    return out


def store(d, a, b):
    paths = [os.path.join(d, n) for n in ('one.png', 'two.png')]
    for p, x in zip(paths, (a, b)):
        cv2.imwrite(p, x)
    return paths


@facet("similarity", pair(), quick=200, thorough=2000, rule="different images")
def mean_similarity(c):
    a, b = images(c)
    same = (grey(a) == grey(b)).all()
    want, _ = similarity(a, b)
    with scratch() as d, quiet():
        one, two = store(d, a, b)
        got = call(lambda: CompareImages(one, two).get_mssim())
        back = call(lambda: CompareImages(two, one).get_mssim())
        self = call(lambda: CompareImages(one, one).get_mssim())
    expect_near(got, want, "similarity", 1e-9, 1e-9)
    expect_near(back, want, "similarity the other way round", 1e-9, 1e-9)
    expect(self == 1.0, f"similarity of an image with itself is {self}")
    if same:
        expect(got == 1.0, f"similarity of equal grey images is {got}")
    else:
        expect(got < 1.0, f"similarity of different grey images is {got}")
    return not same


@contextlib.contextmanager
def screen():
    """Pictures and key waits meant for a window are kept here instead."""
    seen = []
    stand = {'imshow': lambda name, image: seen.append(np.array(image)), 'waitKey': lambda delay=0: seen.append('wait') or -1}
    old = [(m, n, getattr(m, n)) for m in (cv2, ci) for n in stand if hasattr(m, n)]
    for m, n, _ in old:
        setattr(m, n, stand[n])
    try:
        yield seen
    finally:
        for m, n, f in old:
            setattr(m, n, f)


SAVE = ['difference', 'thresh', 'difference_in_1', 'difference_in_2']


@facet("pictures", st.fixed_dictionaries({'p': pair(), 'order': st.lists(pick(*SAVE), min_size=1, max_size=7), 'shown': st.lists(st.tuples(pick(*SAVE), st.booleans()), max_size=4), 'early': st.booleans()}), quick=200, thorough=2000,
       rule="different images and a picture asked for twice or more than one picture")
def pictures(c):
    """Every picture in any order, any number of times."""
    a, b = images(c['p'])
    _, local = similarity(a, b)
    same = (grey(a) == grey(b)).all()
    with scratch() as d, quiet():
        one, two = store(d, a, b)
        cmp = call(CompareImages, one, two)
        method = {'difference': cmp.save_difference_image, 'thresh': cmp.save_thresh_image, 'difference_in_1': cmp.save_difference_in_image_1,
                  'difference_in_2': cmp.save_difference_in_image_2}

        def save(kind):
            out = os.path.join(d, f'out_{kind}.png')
            if os.path.exists(out):
                os.unlink(out)
            call(method[kind], out)
            got = cv2.imread(out, cv2.IMREAD_UNCHANGED)
            expect(got is not None, f"no picture was written for {kind}")
            return got
        display = {'difference': cmp.show_difference_image, 'thresh': cmp.show_thresh_image, 'difference_in_1': cmp.show_difference_in_image_1,
                   'difference_in_2': cmp.show_difference_in_image_2}
        shown = []

        def show():
            for kind, wait in c['shown']:
                with screen() as window:
                    call(display[kind], wait)
                shown.append((kind, wait, window))
        if c['early']:
            show()
        seen = {}
        for kind in c['order'] + SAVE:
            got = save(kind)
            if kind in seen:
                expect(np.array_equal(got, seen[kind]), f"{kind} differs when asked for again")
            seen[kind] = got
        if not c['early']:
            show()
    for kind, wait, window in shown:
        expect(len(window) == 1 + wait and np.array_equal(window[0], seen[kind]), f"the picture shown for {kind} is not the saved one, or the window does {'not ' * wait}wait for a key")
    expect(seen['difference'].shape == local.shape, f"difference picture of size {seen['difference'].shape}")
    scaled = np.clip(local, 0, 1) * 255
    off = np.abs(seen['difference'].astype(float) - np.floor(scaled + 1e-6))
    bad = (off > 0) & ~((off == 1) & (np.abs(scaled - np.round(scaled)) < 1e-5))
    expect(not bad.any(), f"difference picture at {np.argwhere(bad)[:1].tolist()} is {seen['difference'][bad][:1]} where the similarity is {local[bad][:1]}")
    level, low = cv2.threshold(seen['difference'], 0, 255, cv2.THRESH_BINARY_INV | cv2.THRESH_OTSU)
    t = seen['thresh']
    expect(set(np.unique(t)) <= {0, 255}, f"levels {np.unique(t)} in the threshold picture")
    expect(np.array_equal(t, low), f"threshold picture does not mark the difference values up to {level}")
    if same:
        expect(not t.any(), "equal images are marked as different")
    else:
        expect(t.any(), "nothing is marked in different images") if scaled.min() < 254 else None
    for kind, image in (('difference_in_1', a), ('difference_in_2', b)):
        want = boxes(t, image)
        expect(np.array_equal(seen[kind], want), f"{kind}: not the image with a box around each marked region")
    return not same


@facet("rejected", st.fixed_dictionaries({'p': pair(), 'which': ints(1, 3), 'how': pick('absent', 'text', 'size')}), quick=30, thorough=150, rule="always")
def rejected(c):
    """Unreadable images are named in the error; images of different size are not compared."""
    a, b = images(c['p'])
    with scratch() as d, quiet():
        if c['how'] == 'size':
            one, two = store(d, a, b[:, :-1] if b.shape[1] > 8 else np.pad(b, ((0, 0), (0, 1), (0, 0))))
            expect(raises(CompareImages, one, two) is not None, "images of different size were compared")
            return True
        paths = store(d, a, b)
        for i in (0, 1):
            if c['which'] & (i + 1):
                os.unlink(paths[i])
                if c['how'] == 'text':
                    with open(paths[i], 'w', encoding='utf-8') as f:
                        f.write('no image')
        first = paths[0] if c['which'] & 1 else paths[1]
        e = raises(CompareImages, *paths)
        expect(isinstance(e, KeyError) and first in str(e), f"{e!r} for the unreadable {first}")
    return True
