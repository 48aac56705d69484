"""C22: the metadata of an image are those of its headers."""
from symhach.h import H

PRELOAD = ["hachoir.metadata", "hachoir.parser.image", "hachoir.metadata.image", "hachoir.metadata.jpeg"]
ASSUMPTIONS = ["files with a valid signature, whose other parts are the smallest ones"]
W = 20000


def num(env, name, n, endian, lo=None, hi=None):
    """n bytes and the integer that they encode."""
    b = env.bytes(name, n)
    v = 0
    for c in (reversed(list(b)) if endian == "le" else b):
        v = v * 256 + c
    if lo is not None:
        env.assume(env.all(lo <= v, v <= hi))
    return b, v


def metadata(env, cls, data):
    """Metadata of the file, which the parser must accept."""
    from hachoir.metadata import extractMetadata
    from hachoir.parser import ValidateError
    from hachoir.stream import StringInputStream
    import hachoir.parser.image as images
    try:
        parser = getattr(images, cls)(StringInputStream(data), validate=True)
    except ValidateError:
        env.check(False, "a valid file is accepted")
        return None
    return extractMetadata(parser)


def want(env, m, key, value, lo=1, hi=W):
    """The metadata is the value when it is between lo and hi."""
    label = "%s of the image" % key
    if m.has(key):
        got = m.get(key)
        env.check(env.all(got == value, lo <= value, value <= hi), label)
        env.observe(got)
    else:
        env.check(env.any(value < lo, hi < value), label)


def want_text(env, m, key, names, code, default=None):
    """The metadata is the name of the code, or the code."""
    label = "%s of the image" % key
    if not m.has(key):
        env.check(False, label)
        return
    got = m.getText(key)
    for k, name in names.items():
        env.check(env.implies(code == k, got == name), label)
    env.check(env.any(*[code == k for k in names] + [got == str(code)]), label)


BMP_CODECS = {0: "Uncompressed", 1: "RLE 8-bit", 2: "RLE 4-bit", 3: "Bitfields", 4: "JPEG", 5: "PNG"}


def bmp(env):
    """Header, then the image header of 12, 40 or 108 bytes."""
    size = env["size"]
    wide = 2 if size == 12 else 4
    wb, w = num(env, "width", wide, "le")
    hb, h = num(env, "height", wide, "le")
    bb, bpp = num(env, "bpp", 2, "le")
    if "bpp" in env.cfg:
        env.assume(bpp == env.cfg["bpp"])
    else:
        env.assume(bpp > 8)
    header = size.to_bytes(4, "little") + wb + hb + b"\1\0" + bb
    if size > 12:
        cb, codec = num(env, "codec", 4, "le")
        env.assume(env.any(codec != 0, codec != 3) if env.cfg.get("codecs") else codec == 1)
        colorsb, colors = num(env, "colors", 4, "le", 0, 3 if "bpp" in env.cfg else 1 << 32)
        header += cb + b"\0" * 12 + colorsb
        header += b"\0" * (size - len(header))
    palette = b""
    nb = 0
    if "bpp" in env.cfg:
        nb = 1 << env.cfg["bpp"]
        if size > 12:
            nb = env.ite(colors == 0, nb, colors)
            nb = env.pin(nb)
        palette = b"\x10\x20\x30\x40"[:3 if size == 12 else 4] * nb
    start = 14 + size + len(palette) + 4
    total = start
    data = b"BM" + total.to_bytes(4, "little") + b"\0" * 4 + start.to_bytes(4, "little") + header + palette + b"\0\0\0\0"
    m = metadata(env, "BmpFile", data)
    if m is None:
        return
    want(env, m, "width", w)
    want(env, m, "height", h)
    want(env, m, "bits_per_pixel", bpp, 1, 256)
    if size > 12:
        want_text(env, m, "compression", BMP_CODECS, codec)
        if "bpp" in env.cfg and m.has("nb_colors"):
            env.check(m.get("nb_colors") == nb, "nb_colors of the image")
        elif "bpp" in env.cfg:
            env.check(colors == 0, "nb_colors of the image")
    env.check(m.get("format_version") == "Microsoft Bitmap version %s" % {12: 2, 40: 3, 108: 4}[size], "format version of the image")


def gif(env):
    wb, w = num(env, "width", 2, "le", 1, 6000)
    hb, h = num(env, "height", 2, "le", 1, 6000)
    flags = env.int("flags", 0, 127)
    bits = env["bits"]
    env.assume(flags % 8 == bits - 1)
    version = env.choice("version", [b"87a", b"89a"])
    data = b"GIF" + version + wb + hb + bytes_of(env, flags + 128) + b"\0\0" + b"\1\2\3" * (1 << bits)
    transp = env.int("transp", 0, 1)
    if env["control"]:
        data += b"!\xf9\4" + bytes_of(env, transp) + b"\0\0\0\0"
    if env["comment"]:
        text = env.bytes("comment", env["comment"])
        for c in text:
            env.assume(env.all(65 <= c, c <= 90))
        data += b"!\xfe" + bytes([len(text)]) + text + b"\0"
    data += b",\0\0\0\0\1\0\1\0\0\2\2\x44\1\0;"
    m = metadata(env, "GifFile", data)
    if m is None:
        return
    want(env, m, "width", w)
    want(env, m, "height", h)
    want(env, m, "bits_per_pixel", bits)
    want(env, m, "nb_colors", 1 << bits)
    env.check(m.get("format_version") == "GIF version " + version.decode(), "format version of the image")
    env.check(m.get("compression") == "LZW", "compression of the image")
    if env["control"]:
        env.check((m.get("pixel_format") == "Color index with transparency") == (transp == 1), "pixel_format of the image")
    if env["comment"]:
        env.check(m.get("comment") == text.decode("ascii"), "comment of the image")


def bytes_of(env, *values):
    """Byte string of these numbers."""
    return bytes(list(values))


def png(env):
    wb, w = num(env, "width", 4, "be")
    hb, h = num(env, "height", 4, "be")
    if "text" in env.cfg or "time" in env.cfg:
        env.assume(env.all(w == 640, h == 480))
    kind = env["type"]
    depth = env.choice("depth", {0: [1, 2, 4, 8, 16], 2: [8, 16], 3: [1, 2, 4, 8], 4: [8, 16], 6: [8, 16]}[kind])
    samples = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[kind]
    data = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", wb + hb + bytes([depth, kind, 0, 0, env.choice("interlace", [0, 1])]))
    if env.cfg.get("time"):
        yb, y = num(env, "year", 2, "be", 1850, 2030)
        t = env.bytes("time", 5)
        data += chunk(b"tIME", yb + t)
    if kind == 3:
        data += chunk(b"PLTE", b"\1\2\3" * env["colors"])
    if env.cfg.get("text"):
        text = env.str("text", env["text"], lo=97, hi=99)
        key = env.choice("key", [b"Software", b"COMMENT", b"Author"])
        data += chunk(b"tEXt", key + b"\0" + text.encode("latin1"))
    data += chunk(b"IEND", b"")
    m = metadata(env, "PngFile", data)
    if m is None:
        return
    want(env, m, "width", w)
    want(env, m, "height", h)
    want(env, m, "bits_per_pixel", depth * samples, 1, 256)
    env.check(m.get("compression") == "deflate", "compression of the image")
    if kind == 3:
        want(env, m, "nb_colors", env["colors"], 1, 1 << 24)
        env.check(m.get("pixel_format") == "Color index", "pixel_format of the image")
    elif kind in (2, 6):
        env.check(m.get("pixel_format") == {2: "RGB", 6: "RGBA"}[kind], "pixel_format of the image")
    if env.cfg.get("text"):
        if key == b"Software":
            env.check(m.get("producer") == text, "texts of the image")
        elif key == b"COMMENT":
            env.check(m.get("comment") == text, "texts of the image")
        else:
            env.check(m.get("comment") == "Author=" + text, "texts of the image")
    if env.cfg.get("time"):
        month, day, hour, minute, second = t
        last = 0
        for k, n in enumerate([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]):
            last = env.ite(month == k + 1, n, last)
        last = env.ite(env.all(month == 2, y % 4 == 0, env.any(y % 100 != 0, y % 400 == 0)), 29, last)
        valid = env.all(1 <= month, month <= 12, 1 <= day, day <= last, hour < 24, minute < 60, second < 60)
        valid = env.all(valid, env.any(y < 2030, month < 12, day < 31, env.all(hour == 0, minute == 0, second == 0)))
        if m.has("creation_date"):
            d = m.get("creation_date")
            env.check(env.all(valid, d.year == y, d.month == month, d.day == day, d.hour == hour, d.minute == minute, d.second == second), "date of the image")
        else:
            env.check(env.no(valid), "date of the image")


def chunk(tag, content):
    return len(content).to_bytes(4, "big") + tag + content + b"\0\0\0\0"


PCX_VERSIONS = {0: "Version 2.5 of PC Paintbrush", 2: "Version 2.8 with palette information", 3: "Version 2.8 without palette information",
                4: "PC Paintbrush for Windows", 5: "Version 3.0 (or greater) of PC Paintbrush"}


def pcx(env):
    x0b, x0 = num(env, "xmin", 2, "le")
    y0b, y0 = num(env, "ymin", 2, "le")
    x1b, x1 = num(env, "xmax", 2, "le")
    y1b, y1 = num(env, "ymax", 2, "le")
    xb, xdpi = num(env, "xdpi", 2, "le")
    yb, ydpi = num(env, "ydpi", 2, "le")
    env.assume(env.all(x0 <= x1, y0 <= y1))
    bpp = env["bpp"]
    version = env.choice("version", sorted(PCX_VERSIONS))
    data = bytes([10, version, 1, bpp]) + x0b + y0b + x1b + y1b + xb + yb + b"\0" * 48 + b"\0\1\2\0\1\0" + b"\0" * 58
    if bpp == 8:
        data += b"\1\2\3" * 256
    m = metadata(env, "PcxFile", data)
    if m is None:
        return
    want(env, m, "width", x1 - x0 + 1)
    want(env, m, "height", y1 - y0 + 1)
    want(env, m, "width_dpi", xdpi, 1, 10000)
    want(env, m, "height_dpi", ydpi, 1, 10000)
    want(env, m, "bits_per_pixel", bpp)
    want(env, m, "nb_colors", 1 << bpp)
    env.check(m.get("format_version") == "PCX: " + PCX_VERSIONS[version], "format version of the image")


TGA_CODECS = {0: "No image data", 1: "Palette uncompressed", 2: "True-color uncompressed", 3: "Grayscale uncompressed", 9: "Palette RLE",
              10: "True-color RLE", 11: "Grayscale RLE"}


def tga(env):
    wb, w = num(env, "width", 2, "le")
    hb, h = num(env, "height", 2, "le")
    cb, colors = num(env, "colors", 2, "le")
    codec = env.int("codec", 0, 11)
    env.assume(env.any(*[codec == k for k in TGA_CODECS]))
    bpp = env.choice("bpp", [8, 15, 16, 24, 32])
    data = b"\0\0" + bytes_of(env, codec) + b"\0\0" + cb + b"\x18" + env.bytes("origin", 4) + wb + hb + bytes([bpp]) + env.bytes("flags", 1) + b"\1\2\3"
    m = metadata(env, "TargaFile", data)
    if m is None:
        return
    want(env, m, "width", w)
    want(env, m, "height", h)
    want(env, m, "bits_per_pixel", bpp)
    want(env, m, "nb_colors", colors, 1, 65535)
    want_text(env, m, "compression", TGA_CODECS, codec)


PSD_MODES = {0: "Bitmap", 1: "Grayscale", 2: "Indexed", 3: "RGB color", 4: "CMYK color", 7: "Multichannel", 8: "Duotone", 9: "Lab Color"}


def psd(env):
    cb, channels = num(env, "channels", 2, "be", 1, 56)
    hb, h = num(env, "height", 4, "be", 1, 300000)
    wb, w = num(env, "width", 4, "be", 1, 300000)
    depth = env.choice("depth", [1, 8, 16, 32])
    mb, mode = num(env, "mode", 2, "be")
    zb, codec = num(env, "codec", 2, "be")
    env.assume(codec == 1 if env["of"] == "mode" else mode == 3)
    data = b"8BPS\0\1" + b"\0" * 6 + cb + hb + wb + bytes([0, depth]) + mb + b"\0" * 12 + zb + b"\1\2"
    m = metadata(env, "PsdFile", data)
    if m is None:
        return
    want(env, m, "width", w)
    want(env, m, "height", h)
    want(env, m, "bits_per_pixel", depth * channels, 1, 256)
    want_text(env, m, "pixel_format", PSD_MODES, mode)
    want_text(env, m, "compression", {0: "Raw data", 1: "RLE"}, codec)


def ico(env):
    n = env["n"]
    entries = []
    offset = 6 + 16 * n
    head = b"\0\0\1\0" + bytes([n, 0])
    body = b""
    for k in range(n):
        w = env.int("w%d" % k, 0, 255)
        h = env.int("h%d" % k, 0, 255)
        colors, planes, bpp = env.choice("kind%d" % k, [(0, 1, 8), (0, 1, 24), (0, 1, 32), (16, 1, 4), (0, 0, 0), (16, 0, 0), (16, 1, 16)])
        content = (40).to_bytes(4, "little") + b"\1\0\0\0\2\0\0\0\1\0" + bytes([bpp]) + b"\0" + b"\0" * 24
        content += b"\1\2\3\4" * (256 if bpp == 8 else colors) + b"\5" * 6
        head += bytes_of(env, w, h) + bytes([colors, 0, planes, 0, bpp, 0]) + len(content).to_bytes(4, "little") + offset.to_bytes(4, "little")
        offset += len(content)
        body += content
        entries.append((w, h, colors, bpp))
    m = metadata(env, "IcoFile", head + body)
    if m is None:
        return
    groups = list(m.iterGroups())
    env.check(len(groups) == n, "a group for each icon")
    for g, (w, h, colors, bpp) in zip(groups, entries):
        want(env, g, "width", env.ite(w == 0, 256, w))
        want(env, g, "height", env.ite(h == 0, 256, h))
        env.check(g.get("bits_per_pixel") == (bpp or (4 if colors else 8)), "bits_per_pixel of the image")
        want(env, g, "nb_colors", colors)


def jpeg(env):
    hb, h = num(env, "height", 2, "be")
    wb, w = num(env, "width", 2, "be")
    n = env["components"]
    sof = env.choice("frame", [0xc0, 0xc1, 0xc2, 0xc9])
    data = b"\xff\xd8\xff\xe0\0\x10JFIF\0\1\2"
    xb, xdpi = num(env, "xdpi", 2, "be")
    yb, ydpi = num(env, "ydpi", 2, "be")
    data += b"\1" + xb + yb + b"\0\0"
    text = env.str("text", env["text"], lo=97, hi=99)
    if env["text"]:
        data += b"\xff\xfe" + bytes([0, 2 + env["text"]]) + text.encode("latin1")
    data += bytes([0xff, sof, 0, 8 + 3 * n, 8]) + hb + wb + bytes([n]) + b"\1\x11\0\2\x11\0\3\x11\0\4\x11\0"[:3 * n]
    data += b"\xff\xd9"
    m = metadata(env, "JpegFile", data)
    if m is None:
        return
    want(env, m, "width", w)
    want(env, m, "height", h)
    want(env, m, "bits_per_pixel", 8 * n)
    if n != 4:
        env.check(m.get("pixel_format") == {1: "Grayscale", 3: "YCbCr"}[n], "pixel_format of the image")
    if env["text"]:
        env.check(m.get("comment") == text, "comment of the image")


HARNESSES = [
    H("bmp", bmp, [dict(size=s) for s in (12, 40, 108)] + [dict(size=s, bpp=b) for s in (12, 40) for b in (1, 4)] + [dict(size=40, codecs=1)],
      bounds="any width, height, number of bits and of colours (palettes of 16 colours)", expect=("width of the image", "height of the image", "nb_colors of the image", "compression of the image")),
    H("gif", gif, [dict(bits=b, control=c, comment=t) for b, c, t in ((1, 0, 0), (2, 1, 0), (3, 0, 2), (8, 1, 1))], bounds="any width and height accepted, palettes of 2-256 colours",
      expect=("width of the image", "comment of the image", "pixel_format of the image")),
    H("png", png, [dict(type=t, colors=3) for t in (0, 2, 3, 4, 6)] + [dict(type=3, colors=1), dict(type=2, text=2), dict(type=2, time=1)], bounds="any width and height, all types and depths, all dates",
      expect=("width of the image", "bits_per_pixel of the image", "texts of the image", "date of the image")),
    H("pcx", pcx, [dict(bpp=b) for b in (1, 4, 8)], bounds="any corners and resolutions", expect=("width of the image", "height_dpi of the image")),
    H("tga", tga, [{}], bounds="any width, height and number of colours", expect=("width of the image", "compression of the image")),
    H("psd", psd, [dict(of="mode"), dict(of="codec")], bounds="any width, height, channels, depth and mode", expect=("width of the image", "pixel_format of the image")),
    H("ico", ico, [dict(n=1), dict(n=2)], bounds="1-2 icons of any size", expect=("width of the image", "a group for each icon")),
    H("jpeg", jpeg, [dict(components=n, text=t) for n, t in ((1, 0), (3, 2), (4, 1))], bounds="any size and resolution, 1-4 components", expect=("width of the image", "comment of the image")),
]
