import os
from engine.spec import contract
ASSUME = ['bounded: folders of at most 9 files']


def frames(path):
    """grey levels of the frames of an animation"""
    if not os.path.exists(path): return []
    from PIL import Image
    out = []
    with Image.open(path) as im:
        for k in range(getattr(im, 'n_frames', 1)):
            im.seek(k)
            out.append(im.convert('L').getpixel((2, 2)))
    return out


def folder(E, d):
    """pictures of some steps among other files; returns the grey levels in the order of the steps"""
    import numpy as np, imageio
    n = E.int('n', lo=0, samp=(0, 7))
    level = 10
    steps = []
    order = []
    pool = [1, 2, 3, 5, 9, 10, 11, 20, 99, 100, 101, 1000]
    for k in range(n):
        s = pool[E.int('step%d' % k, lo=0, samp=(0, len(pool) - 1))]
        if s in [x for x, _ in steps]: continue
        steps.append((s, level))
        prefix = E.choice('prefix%d' % k, ['run', 'run', 'z_step_4', 'b'])
        order.append(('%s_step_%s.png' % (prefix, ('%04d' % s) if E.choice('padded%d' % k, [False, False, True]) else s), level))
        level += 15
    for k, f in enumerate(['run_final.png', 'notes.txt', 'run_step_3.jpg', 'run_step_x.png', 'step7.png', 'run_step_8.png.bak', 'run_step_6_old.png']):
        if E.choice('other%d' % k, [False, True]): order.append((f, 250))
    # creation order is the order of many directory listings
    for i in range(len(order)):
        j = E.int('swap%d' % i, lo=0, samp=(0, 20)) % len(order)
        order[i], order[j] = order[j], order[i]
    for f, l in order:
        if f.endswith(('.txt', '.bak')): open(os.path.join(d, f), 'w').close()
        else: imageio.imwrite(os.path.join(d, f), np.full((6, 6), l, dtype='uint8'))
    return [l for _, l in sorted(steps)]


def shuffled(E):
    """directory listings in an arbitrary order"""
    import glob
    seed = E.int('listing', lo=0, samp=(0, 10 ** 6))
    rng = __import__('random').Random(seed)
    for m, n in ((os, 'listdir'), (glob, 'glob')):
        f = getattr(m, n)

        def g(*a, f=f, **k):
            r = list(f(*a, **k))
            rng.shuffle(r)
            return r
        E.patch(m, n, g)


@contract('C29', ['create_animation'], mode='bounded', trials=120)
def folder_animation(E):
    M = E.mod('utils')
    d = os.path.join(E.tmpdir(), E.choice('dir', ['intermediate', 'a [1]', 'x*']))
    os.mkdir(d)
    want = folder(E, d)
    out = os.path.join(E.tmpdir(), 'a.gif')
    shuffled(E)
    M.create_animation(d, out, fps=5)
    if want: E.check('the saved steps in chronological order, each once', frames(out) == want)
    else: E.check('nothing to show, nothing written', not os.path.exists(out))


@contract('C29', ['Simulator._create_animation'], mode='bounded', trials=120)
def run_animation(E):
    import numpy as np, imageio
    S = E.cls('simulator.simulation', 'Simulator')
    up = os.path.join(E.tmpdir(), E.choice('dir', ['run_20260101', 'a [1]', 'x*']))
    d = os.path.join(up, 'intermediate')
    os.makedirs(d)
    want = folder(E, d)
    E.assume(want)
    if E.flag('final'):
        imageio.imwrite(os.path.join(up, 'run_final.png'), np.full((6, 6), 200, dtype='uint8'))
        want = want + [200]
    out = os.path.join(E.tmpdir(), 'a.gif')
    shuffled(E)
    S._create_animation(S.__new__(S), d, out, fps=5)
    E.check('the saved steps in chronological order, each once, then the final picture if there is one', frames(out) == want)
