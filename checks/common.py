"""Input partitions shared by the checks."""
import itertools

from sa.kit import *  # noqa: F401,F403
from sa.kit import PKG, St, Evalr, World, isym, new_obj, DICT

HU = PKG + "utils.harmonic_utils."
HC = PKG + "utils.harmonic_constants."
RU = PKG + "utils.rhythmic_utils."
CH = PKG + "data.chord."
KY = PKG + "data.key."
NT = PKG + "data.note."
VD = PKG + "data.vector_decoding."


def reductions(W):
    """name -> mapping (None means: argument left out)"""
    r = {"default": None}
    for n in ("NO_REDUCTION", "TRIAD_REDUCTION", "ALL_ONE_TYPE_REDUCTION"):
        r[n] = W.const("data.data_types." + n)
    # a user-defined mapping with gaps in the target types, in an order unlike the enum's
    tgt = {
        "MAJOR": "MAJ_MAJ7", "MINOR": "MINOR", "DIMINISHED": "HALF_DIM7", "AUGMENTED": "AUGMENTED",
        "MAJ_MAJ7": "MAJ_MAJ7", "MAJ_MIN7": "MAJ_MIN7", "MIN_MAJ7": "MINOR", "MIN_MIN7": "MINOR",
        "DIM7": "HALF_DIM7", "HALF_DIM7": "HALF_DIM7", "AUG_MIN7": "MAJ_MIN7", "AUG_MAJ7": "AUGMENTED",
    }
    if set(tgt) == set(W.CT):
        names = sorted(tgt, reverse=True)
        r["mixed"] = {W.CT[a]: W.CT[tgt[a]] for a in names}
    return r


CHORD_FIELDS = ["root", "bass", "key_tonic", "key_mode", "chord_type", "inversion", "onset", "onset_level", "offset", "offset_level", "duration", "pitch_type", "suspension"]
KEY_FIELDS = ["relative_tonic", "local_tonic", "global_tonic", "relative_mode", "local_mode", "global_mode", "tonic_type"]
NOTE_FIELDS = ["pitch_class", "octave", "onset", "onset_level", "duration", "offset", "offset_level", "pitch_type", "mc_onset"]


def F_(a, b=1):
    from fractions import Fraction

    return Fraction(a, b)


def chord_kw(W, **over):
    kw = dict(root=14, bass=18, key_tonic=16, key_mode=W.KM["MINOR"], chord_type=W.CT["MIN_MIN7"], inversion=1, onset=Tup((3, F_(1, 4))), onset_level=2, offset=Tup((4, F_(1, 8))), offset_level=1, duration=F_(7, 8), pitch_type=W.TPC, suspension="#4")
    kw.update(over)
    return kw


def key_kw(W, **over):
    kw = dict(relative_tonic=16, local_tonic=17, global_tonic=18, relative_mode=W.KM["MINOR"], local_mode=W.KM["MAJOR"], global_mode=W.KM["MINOR"], tonic_type=W.TPC)
    kw.update(over)
    return kw


def note_kw(W, **over):
    kw = dict(pitch_class=14, octave=4, onset=Tup((3, F_(1, 4))), onset_level=2, duration=F_(3, 8), offset=Tup((4, F_(1, 8))), offset_level=1, pitch_type=W.TPC, mc_onset=F_(1, 16))
    kw.update(over)
    return kw


def conc(v):
    """python view of a constructor argument"""
    return tuple(v.items) if isinstance(v, Tup) else v


def tpc_to_midi(p, c=15):
    return 7 * (p - c) % 12
