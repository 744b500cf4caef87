"""Stand-ins for music21 scores: what reading a score asks of them."""


class Named:
    def __init__(self, **kw):
        self.number = kw.get("number")
        self.ratioString = kw.get("ratioString")
        self.quarterLength = kw.get("quarterLength")


class Bracket:
    def __init__(self, number, first, last):
        self.number = number
        self.first = Named(number=first)
        self.last = Named(number=last)

    def getFirst(self):
        return self.first

    def getLast(self):
        return self.last


class Pitch:
    def __init__(self, name, midi):
        self.name = name
        self.midi = midi


class Note:
    isChord = False

    def __init__(self, offset, length, name, octave, midi):
        self.offset = offset
        self.quarterLength = length
        self.duration = Named(quarterLength=length)
        self.pitch = Pitch(name, midi)
        self.octave = octave


class Chord:
    isChord = True

    def __init__(self, offset, length, notes):
        self.offset = offset
        self.quarterLength = length
        self.duration = Named(quarterLength=length)
        self.notes = notes


class Measure:
    def __init__(self, number, length, timesig, notes):
        self.measureNumber = number
        self.number = number
        self.duration = Named(quarterLength=length)
        self.timeSignature = None if timesig is None else Named(ratioString=timesig)
        self.notes = notes

    def recurse(self):
        return self


class Flat:
    def __init__(self, brackets):
        self.brackets = brackets

    def getElementsByClass(self, cls):
        return self.brackets


class Score:
    """forms: whether parts are together, whether ties are joined -> the measures (of each part) by offset"""

    def __init__(self, forms, brackets, flattened=False, stripped=False):
        self.forms = forms
        self.brackets = brackets
        self.flat = Flat(brackets)
        self.flattened = flattened
        self.stripped = stripped

    def measureOffsetMap(self):
        return {o: ms for o, ms in self.forms[(self.flattened, self.stripped)]}

    def flattenParts(self):
        return Score(self.forms, self.brackets, True, self.stripped)

    def stripTies(self):
        return Score(self.forms, self.brackets, self.flattened, True)
