"""Image files in the formats a camera vendor would use."""
import os

import numpy as np
from PIL import Image

FORMATS = ['png8', 'png16', 'png32', 'tif8', 'tif16', 'tif32', 'bmp8', 'pngrgb', 'pngrgba', 'pngla', 'bmprgb', 'tifrgb', 'tifcmyk', 'npy']
EXT = {'png8': '.png', 'png16': '.png', 'png32': '.png', 'tif8': '.tif', 'tif16': '.tiff', 'tif32': '.tif', 'bmp8': '.bmp', 'pngrgb': '.png',
       'pngrgba': '.png', 'pngla': '.png', 'bmprgb': '.bmp', 'tifrgb': '.tif', 'tifcmyk': '.tif', 'npy': '.npy'}
MAX = {'png16': 65535, 'png32': 65535, 'tif16': 65535, 'tif32': 2 ** 20 - 1, 'npy': 65535}


def fmax(fmt):
    return MAX.get(fmt, 255)


def save(ctx, path, arr, fmt, tag=False):
    """Write the grey values arr (2d integers) as the first channel of a file."""
    a = np.asarray(arr)
    if fmt in ('png8', 'tif8', 'bmp8'):
        im = Image.fromarray(a.astype(np.uint8))
    elif fmt in ('png16', 'tif16'):
        im = Image.fromarray(a.astype(np.uint16))
    elif fmt in ('png32', 'tif32'):
        im = Image.fromarray(a.astype(np.int32))
    elif fmt == 'npy':
        np.save(path, a.astype(np.uint16))
        return
    else:
        n = {'pngrgb': 3, 'pngrgba': 4, 'pngla': 2, 'bmprgb': 3, 'tifrgb': 3, 'tifcmyk': 4}[fmt]
        chans = [a.astype(np.uint8)] + [ctx.rng.integers(0, 256, a.shape).astype(np.uint8) for _ in range(n - 1)]
        mode = 'CMYK' if fmt == 'tifcmyk' else {2: 'LA', 3: 'RGB', 4: 'RGBA'}[n]
        im = Image.merge(mode, [Image.fromarray(c) for c in chans])
    kw = {}
    if tag and fmt.startswith('png'):
        # how a viewer should turn the picture: no business of the pixel values (TIFF files are turned by the library itself)
        ex = Image.Exif()
        ex[274] = ctx.int(2, 8, const=0)
        kw['exif'] = ex
    im.save(path, **kw)


def image(ctx, shape, hi, pattern=None):
    r = ctx.rng
    p = pattern or ctx.pick(['uniform', 'uniform', 'narrow', 'extremes', 'full'])
    if p == 'uniform':
        return r.integers(0, hi + 1, shape)
    if p == 'narrow':
        c = int(r.integers(0, hi + 1))
        return np.clip(c + r.integers(-3, 4, shape), 0, hi)
    if p == 'extremes':
        return np.where(r.random(shape) < .5, 0, hi)
    return np.full(shape, hi)


class Measurement(object):
    """A complete measurement on disk: {kind: {exposure: {photons: [names]}}} and the pixel values."""

    def __init__(self, ctx, root, shape, fmt, texps, photons, sp_texp, sp_photons, L, L_dark=None, sub=True, fname=None):
        self.ctx, self.root, self.shape, self.fmt = ctx, root, shape, fmt
        self.files = {}
        self.images = {'temporal': {}, 'spatial': {}}
        self.count = 0
        self.sub = sub
        self.deep = ctx.pick(['', '', '/img', '/a/b', 'x'])         # equal directory names too
        self.per = ctx.pick([2, 3, 3, 4, 5])
        for e, ps in zip(texps, photons):
            self.images['temporal'][e] = {}
            for p in [0.0] + list(ps):
                self.images['temporal'][e][p] = [self.new() for _ in range(2)]
        for e, ps in zip(sp_texp, sp_photons):
            self.images['spatial'][e] = {}
            for p in [0.0] + list(ps):
                n = (L_dark or L) if p == 0.0 else L
                self.images['spatial'][e][p] = [self.new() for _ in range(n)]

    def new(self, shape=None):
        """A new image file with random contents; equal base names occur in different directories."""
        d = 's%d' % (self.count // self.per) + self.deep if self.sub else ''
        base = ('%d' % (self.count % self.per) if self.sub else 'image%d' % self.count) + EXT[self.fmt]
        self.count += 1
        name = os.path.join(d, base) if d else base
        self.write(name, shape)
        return name

    def write(self, name, shape=None):
        a = image(self.ctx, shape or self.shape, fmax(self.fmt))
        full = os.path.join(self.root, name)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        save(self.ctx, full, a, self.fmt)
        self.files[name] = np.asarray(a)

    def described(self, prefix=True, shuffle=True):
        """The description given to the loader (a fresh dict, random insertion order)."""
        ctx = self.ctx
        sh = ctx.shuffled if shuffle else list
        out = {}
        for k in sh(['temporal', 'spatial']):
            out[k] = {}
            for e in sh(list(self.images[k])):
                out[k][e] = {}
                for p in sh(list(self.images[k][e])):
                    out[k][e][p] = [os.path.join(self.root, f) if prefix else f for f in self.images[k][e][p]]
        return out

    def points(self):
        for k in self.images:
            for e in self.images[k]:
                for p in self.images[k][e]:
                    yield k, e, p, self.images[k][e][p]


def random_measurement(ctx, root, shape=None, fmt=None, multi_spatial=False, small=False, exps=None):
    shape = shape or (ctx.size(1, 20), ctx.size(1, 20))
    fmt = fmt or ctx.pick(FORMATS)
    if exps is None:
        if ctx.chance(.5):
            n_e, n_p = 1, ctx.size(1, 4 if small else 10)
        else:
            n_e, n_p = ctx.size(1, 4 if small else 10), 1
    else:
        n_e, n_p = exps
    texps = [round(ctx.logu(1e2, 1e9), 1) + k for k in range(n_e)]
    photons = [sorted({round(ctx.logu(.001, 1e6), 3) for _ in range(n_p)}) for _ in texps]
    n_s = ctx.int(1, 2, const=0) if multi_spatial else 1
    st = [ctx.pick(texps)] if ctx.chance(.5) else [round(ctx.logu(1e2, 1e9), 1)]
    while len(st) < n_s:
        st.append(st[-1] + 17.0)
    sp = [sorted({round(ctx.logu(.001, 1e6), 3) for _ in range(ctx.int(1, 2, const=0) if multi_spatial else 1)}) for _ in st]
    L = ctx.int(3, 6, const=0)
    return Measurement(ctx, root, shape, fmt, texps, photons, st, sp, L, ctx.pick([None, L + 2]), sub=ctx.chance(.6))
