"""Data from elsewhere, for spec/Eval.tla to tell the meaning of."""

import json
import os
import random
import struct

from lib import FIXTURES

KINDS = {b"GSUB": "GlyphSubstitution", b"GPOS": "GlyphPositioning", b"GDEF": "GlyphDefinition",
         b"fvar": "FontVariations", b"CPAL": "ColorPalettes"}
# Where tables of other kinds refer to item variation stores.
STORES = {b"HVAR": (4, ">I"), b"MVAR": (10, ">H"), b"VVAR": (4, ">I")}


def tables():
    """The tables of the fixtures that the library decodes itself: root, bytes, name."""
    found = []
    for name in sorted(os.listdir(FIXTURES)):
        with open(os.path.join(FIXTURES, name), "rb") as file:
            data = file.read()
        if len(data) < 12:
            continue
        for i in range(struct.unpack(">H", data[4:6])[0]):
            record = data[12 + 16 * i:28 + 16 * i]
            if len(record) < 16:
                break
            tag, _, offset, size = struct.unpack(">4sIII", record)
            table = data[offset:offset + size]
            if tag in KINDS:
                found.append((KINDS[tag], table, "%s of %s" % (tag.decode(), name)))
            elif tag in STORES:
                at, form = STORES[tag]
                at = struct.unpack_from(form, table, at)[0]
                if at:
                    found.append(("Store", table[at:], "the store of %s of %s" % (tag.decode(), name)))
    return found


def write(path, cases):
    """Write (root, bytes) for spec/Eval.tla; it does not do to have nothing in there."""
    cases = list(cases)
    with open(path, "w") as file:
        for root, data in cases:
            file.write(json.dumps({"root": root, "b": list(data)}) + "\n")
    return len(cases)


def damaged(seed, count, most=6000):
    """Tables of the fixtures with a few bytes or words changed, cut, or moved."""
    source = random.Random(seed)
    given = [(root, data) for root, data, _ in tables() if len(data) <= most]
    for _ in range(count):
        root, data = source.choice(given)
        data = bytearray(data)
        for _ in range(source.choice([1, 1, 1, 2, 3])):
            if len(data) < 4:
                break
            # The beginning has most of the structure.
            size = len(data) if source.random() < 0.6 else min(len(data), 64)
            at = source.randrange(size // 2) * 2
            kind = source.randrange(6)
            if kind == 0:
                data[source.randrange(size)] ^= 1 << source.randrange(8)
            elif kind == 1:
                struct.pack_into(">H", data, at, source.choice(
                    [0, 1, 2, 3, 4, 9, 255, 256, 32767, 32768, 65535, len(data) % 65536]))
            elif kind == 2:
                struct.pack_into(">H", data, at, source.randrange(min(len(data), 65535)))
            elif kind == 3:
                value = struct.unpack_from(">H", data, at)[0]
                struct.pack_into(">H", data, at, (value + source.choice([-2, -1, 1, 2])) % 65536)
            elif kind == 4:
                del data[source.randrange(len(data)):]
            else:
                other = source.randrange(len(data) // 2) * 2
                data[at:at + 2] = data[other:other + 2]
        yield root, bytes(data)


def noise(seed, count, roots):
    """Random words, of the sizes that make sense to the decoders."""
    source = random.Random(seed)
    for _ in range(count):
        words = []
        for i in range(source.choice([3, 6, 10, 20, 40, 80])):
            kind = source.randrange(12)
            if kind < 6:
                words.append(source.randrange(5))
            elif kind < 10:
                words.append(2 * source.randrange(40))
            elif kind < 11:
                words.append(source.randrange(65536))
            else:
                words.append(source.choice([16, 32, 255, 256, 32768, 65535]))
        if source.random() < 0.7:
            words[0] = source.choice([1, 1, 1, 2, 3])
        data = b"".join(struct.pack(">H", word) for word in words)
        if source.random() < 0.1:
            data = data[:-1]
        yield source.choice(roots), data
