prop("C01", "Chord vocabulary: index, decoded chord and label agree and are one-to-one",
  "For every pitch type, chord-type reduction and with or without inversions, the integer index of a chord (root, reduced type, inversion) decodes back to exactly that chord, and the label at that index names it. No two chords of the vocabulary share an index or a label, and the vocabulary's declared size equals the number of chords and labels. A root or inversion outside the vocabulary is rejected with an error instead of aliasing another chord, and the vocabulary's order never depends on set iteration order.",
  "every root, chord type, inversion, relative or absolute spelling, range padding, pitch type and reduction mapping (also user-defined ones with gaps)",
  "The tests compare a few hand-picked indexes with the default reduction; a swapped stride or an off-by-one in one branch only shows for particular reductions, paddings or inversion settings.",
  [U + "harmonic_utils.py", D + "chord.py"],
  [("index of a chord", U + "harmonic_utils.py get_chord_one_hot_index"), ("decoded list and labels", U + "harmonic_utils.py get_chord_from_one_hot_index, get_chord_label_list"), ("a chord's own index", D + "chord.py Chord.get_one_hot_index")],
  AI, "Index, decode and label functions are summarised as closed forms over the root and inversion symbols for each configuration, and compared over the whole finite vocabulary." + TR)
prop("C02", "Key and key-change vocabulary: index, decoded key and label agree, one-to-one",
  "For both pitch types, the integer index of a key decodes to its tonic and mode, and the index of a key change decodes to the interval from the old to the new tonic and the new mode; the label at that index names the same key. Indexes and labels are unique and their number equals the declared vector length. Tonics or intervals out of range are rejected with an error.",
  "every tonic, mode, pair of keys and pitch type",
  "Existing tests sample a few keys; a wrong sign, stride or wrap only shows for particular pairs of tonics or the other pitch type.",
  [U + "harmonic_utils.py", D + "key.py"],
  [("index of a key", U + "harmonic_utils.py get_key_one_hot_index"), ("decoding", U + "harmonic_utils.py get_key_from_one_hot_index"), ("key change index and vector", D + "key.py Key")],
  AI, "Closed forms of the index and decode functions over tonic symbols, compared over the finite vocabulary." + TR)
prop("C03", "Pitch spelling: names and pitches are inverse",
  "The name printed for every pitch spells exactly that pitch, and reading a note name (either case, any number of accidentals) gives the pitch it spells, in tonal-pitch-class or MIDI numbering. Names outside the tonal pitch range are rejected with an error, and counting accidentals consumes exactly the accidentals at the requested end, flats negative and sharps positive.",
  "every pitch, every note name with its accidentals, both pitch types",
  "Tests read back a handful of names; the letter/accidental arithmetic has to be right for every combination.",
  [U + "harmonic_utils.py", U + "harmonic_constants.py"],
  [("reading a name", U + "harmonic_utils.py get_pitch_from_string"), ("printing a name", U + "harmonic_utils.py get_pitch_string"), ("accidentals", U + "harmonic_utils.py get_accidental_adjustment")],
  AI, "Name tables and parsing code are evaluated abstractly for every pitch and every letter with up to several accidentals; unbounded accidental counts are covered up to the pitch range." + TR)
prop("C04", "Transposition, relative pitch and pitch-type conversion keep the sound",
  "Transposing adds the interval and relative pitch is the distance from the tonic, modulo 12 for MIDI; tonal results outside the allowed range are rejected, never wrapped or clipped. Converting a chord, key or note between tonal and MIDI numbering keeps every pitch's sound and all other fields, stays in range, and returns a new object without changing the original. A note's MIDI number is 12 times its octave plus its sounding pitch class, whichever pitch type it is stored in.",
  "every pitch, interval, tonic, padding and pitch type",
  "Tests use a few examples inside the range; range edges, padding and the second pitch type decide whether a wrap or a lost field is noticed.",
  [U + "harmonic_utils.py", D + "chord.py", D + "key.py", D + "note.py"],
  [("transposition", U + "harmonic_utils.py transpose_pitch"), ("relative pitch", U + "harmonic_utils.py absolute_to_relative"), ("conversion", D + "chord.py Chord.to_pitch_type, key.py Key.to_pitch_type, note.py Note.to_pitch_type"), ("MIDI number", D + "note.py Note.get_midi_note_number")],
  AI, "Closed forms over the pitch and tonic symbols compared over the whole range, including values just outside it." + TR)
prop("C05", "Scale degrees and applied keys resolve to the right interval, tonic and mode",
  "A scale degree written as a roman (either case) or arabic numeral with accidentals before or after denotes that degree of the major or natural minor scale of the given mode, raised or lowered by the accidentals, and naming an interval and reading the name back gives the same interval. An applied key written as a chain of numerals is resolved from the last numeral to the first, each one within the key of the one before, ending in the right tonic and mode or in an error when out of range.",
  "every numeral, accidental combination, mode, pitch type and chain of numerals",
  "Tests check single numerals with few accidentals in one pitch type; chains and rare accidentals take other paths.",
  [U + "harmonic_utils.py", U + "harmonic_constants.py"],
  [("numeral to interval", U + "harmonic_utils.py get_interval_from_scale_degree, get_interval_from_numeral"), ("interval to numeral", U + "harmonic_utils.py get_scale_degree_from_interval"), ("applied keys", U + "harmonic_utils.py get_local_key / decode_relative_keys")],
  AI, "Every numeral with accidentals in both modes and pitch types; chains up to length three (the fold over the chain is the same code per element)." + TR)
prop("C06", "Chord content: tones, bass, inversions, reductions and names are consistent",
  "For every chord type the number of inversions is its number of tones, the bass of the n-th inversion is its n-th tone above the root, and its pitch vector has ones at exactly its tones, in both pitch types; tones outside the tonal range are dropped and never wrapped around, and computing a vector never changes shared tables. Every reduction maps every chord type, and the triad reduction maps a chord to the triad of its lowest three tones. Chord-type names and figured-bass figures decode to the type and inversion they name, and unknown ones are rejected.",
  "every chord type, root, inversion, pitch type, reduction and figure",
  "Tests cover some roots and types; a wrong tone in one table row or a wrapped transposition shows only for particular roots.",
  [U + "harmonic_utils.py", U + "harmonic_constants.py", D + "data_types.py"],
  [("tone tables", U + "harmonic_constants.py CHORD_PITCHES, STRING_TO_CHORD_TYPE"), ("vectors and bass", U + "harmonic_utils.py get_vector_from_chord_type, get_bass_note, transpose_chord_vector"), ("reductions", D + "data_types.py *_REDUCTION")],
  AI, "Tables are read from the analysed program and compared with the music-theoretical spelling of each type; every root and inversion is covered." + TR)
prop("C07", "Chord feature vectors: layout, values, length and decoding agree",
  "A chord's feature vector is the concatenation of one-hots for relative root, reduced type, relative bass, inversion, onset and offset metrical level, followed by the duration and a major-key flag, relative to its own or a given key. Its length equals the declared length and the published positions of its parts for every pitch type and padding, decoding it gives the chord's content back, and building it changes neither chord nor key. Roots or basses outside the interval range are rejected with an error.",
  "every chord, key, reduction, padding and pitch type",
  "Tests build vectors for a few chords; a shifted field or wrong length for one padding or pitch type is only seen for those.",
  [D + "chord.py", D + "vector_decoding.py"],
  [("vector", D + "chord.py Chord.to_vec"), ("length", D + "chord.py get_chord_vector_length"), ("decoding and part positions", D + "vector_decoding.py")],
  AI, "The vector is summarised with root, bass and tonic symbolic for a covering set of the other fields; compared at boundary and stride points of the pitch range (denser in thorough)." + TR)
prop("C08", "Note feature vectors: layout, values and length",
  "A note's feature vector consists of one-hots for pitch class, octave, onset and offset metrical level, its position and length within the chord, the gaps to the neighbouring onsets, a lowest-note flag, its octave above the lowest note, its MIDI number divided by 127 and its relative height between the lowest and highest note; parts with no context given are zero. Its length equals the declared length for both pitch types and building it leaves the note unchanged.",
  "every note, chord context, neighbouring-onset gaps, pitch extremes and pitch type",
  "Tests build few notes in one pitch type with full context; omitted contexts, zero durations and equal extremes take other branches.",
  [D + "note.py"],
  [("vector", D + "note.py Note.to_vec"), ("length", D + "note.py get_note_vector_length"), ("MIDI number", D + "note.py Note.get_midi_note_number")],
  AI, "Constant partitions over pitch, octave, levels and context kinds." + TR)
prop("C09", "Feature-vector operations: key changes, transposition, reduction, decoding",
  "A key-change vector marks the interval between the two tonics and the new mode and decodes back to them; a note vector decodes to the note it was built from; a row holding a chord vector, a key-change vector and a flag decodes into that chord and key change. Transposing a note vector moves only its pitch class, leaves the given vector alone and rejects pitches out of range. Reducing chord types or inversions, in a matrix of chord vectors (with or without an appended key-change part) or in an array of chord indexes, maps every chord to the same chord with the reduced type or without inversion and changes nothing else.",
  "every interval, mode, pitch, transposition, chord row, reduction, padding and pitch type",
  "No existing test touches these functions.",
  [D + "vector_decoding.py", D + "key.py"],
  [("key-change vector", D + "key.py Key.get_key_change_vector"), ("vector operations", D + "vector_decoding.py")],
  AI + " over arrays of known shape", "Constant partitions: all intervals and modes, all pitches, a covering set of rows including padding rows, unsorted index arrays with repetitions." + TR)
prop("C10", "Musical time: range lengths, positions within a range, metrical levels",
  "The length of a range between two score positions is the sum of the measure lengths along the playing order (each measure's successor, its actual duration and its offset taken into account), negated when the ends are swapped. A note's onset, offset and duration within a range are its distance from the range's start, that plus its length, and its length, divided by the length of the range. A time signature's beat and sub-beat lengths follow simple or compound meter, and a position's metrical level is 3 on a downbeat, 2 on a beat, 1 on a sub-beat and 0 otherwise.",
  "every measure length, measure offset, playing order, beat, time signature and pair of positions",
  "Tests use a single small measure table and a few positions; pickup measures, repeated or skipped measures and swapped ends take other paths.",
  [U + "rhythmic_utils.py"],
  [("range length", U + "rhythmic_utils.py get_range_length"), ("position in a range", U + "rhythmic_utils.py get_rhythmic_info_as_proportion_of_range"), ("meter", U + "rhythmic_utils.py get_metrical_level_lengths, get_metrical_level")],
  AI + " over data frames with symbolic rational cells", "Measure lengths, offsets and beats are symbols; the closed form along each of several playing orders (in order, skipped measures, unordered rows, from 0) is compared with the definition at generic and boundary points." + TR)
prop("C11", "Chord, key and note objects: equality, repetition, merging, dictionary form",
  "Two chords, keys or notes are equal exactly when all their fields are, and unequal to anything else. Their dictionary form lists exactly the constructor's parameters with the object's values and rebuilds an equal object. A chord repeats another iff pitch type, root and chord type (and inversion or suspension where asked) agree; a key iff its tonic and mode (of the relative or the local key, as asked) and pitch type agree. Merging a following chord extends the offset, offset level and duration of the first and changes nothing else.",
  "every pair of objects",
  "Tests compare a few objects; a field left out of the comparison, the dictionary or the merge only shows for objects differing in just that field.",
  [D + "chord.py", D + "key.py", D + "note.py"],
  [("equality, dictionary", D + "chord.py Chord, key.py Key, note.py Note __eq__, to_dict"), ("repetition", D + "chord.py Chord.is_repeated, key.py Key.is_repeated"), ("merging", D + "chord.py Chord.merge_with")],
  AI, "Field-by-field: each field symbolic or varied alone and in pairs with every other field held equal." + TR)
prop("C12", "Annotation rows become the chord, key and note they describe",
  "A key read from an annotated row has the global tonic and mode as written, the local key resolved within it and the applied (relative) key resolved within the local one. A chord read from a row has the root the annotated interval above the local tonic, the reduced chord type, the figured inversion within that type's tones (0 if inversions are off), that tone as bass, the relative or local key as asked, and the row's positions, duration and suspension. A note has the row's pitch in the asked pitch type, its octave, positions and length. Metrical levels come from the time signature of the measure each end lies in, also through a shared cache. Rows of labels csv files are read likewise by their conventions. Unlabelled or unreadable rows give no object.",
  "every annotation row, measure table, reduction, pitch type, inversion and relative-key setting and cache history",
  "No existing test reads rows; wrong keys, stale cached levels or swapped onset/offset only show for applied chords, changing time signatures or chords crossing measures.",
  [D + "chord.py", D + "key.py", D + "note.py"],
  [("annotated rows", D + "chord.py Chord.from_series, key.py Key.from_series, note.py Note.from_series"), ("labels csv rows", D + "chord.py Chord.from_labels_csv_row, key.py Key.from_labels_csv_row"), ("levels", U + "rhythmic_utils.py get_metrical_level")],
  AI + " over data frames", "Constant partitions of rows: all chord types x figures x reductions, keys with applied chains, positions in measures of different meters in unordered tables, malformed fields; caches threaded through sequences of rows." + TR)
prop("C13", "Search beams keep the best hypotheses, one per recent history, within capacity",
  "A beam of capacity k holds every added hypothesis until it is full; then a new one is stored exactly if it scores higher than the lowest stored one, which it displaces. A hashed beam moreover holds at most one hypothesis per history (its last hash_length key and chord pairs): a better one replaces its twin even when the beam is full, a worse or equal one is not stored. add tells whether the hypothesis was stored, fits_in_beam predicts this without changing the beam, forced adds ignore the capacity, the top hypothesis has the highest score (None when empty), iteration and length cover exactly the stored hypotheses, and an emptied beam is as good as new.",
  "every sequence of adds, every order of scores including ties, every sharing of histories, every capacity",
  "No existing test touches the beams; a stale or lost entry needs particular sequences of scores and histories.",
  [U + "beam_search_utils.py"],
  [("plain beam", U + "beam_search_utils.py Beam"), ("hashed beam", U + "beam_search_utils.py HashedBeam"), ("history", U + "beam_search_utils.py State.get_hash")],
  AI, "All sequences of up to four adds (five in thorough) up to order isomorphism of scores (ties included) and partition of histories, for capacities 1 to 3; since scores are only compared, order types stand for all scores. The heap functions are analysed from a source model of the standard library." + TR)
prop("C14", "Search hypotheses: transitions, scores, chord and key objects, model inputs",
  "Extending a hypothesis by a chord, changing its key, or rejoining its last chord gives a new hypothesis with the right chord, key, end, predecessor, history, hidden states and priors, whose score is the old one plus the given log-probability (rejoining first takes back the chord's sequence, key-change and key scores), and leaves the old hypothesis unchanged. A chord is refused exactly if its root or bass leave the padded interval range around the tonic, must change key exactly if they leave the unpadded range, and a key is refused exactly if they leave the range around the new tonic. The hypothesis's chord and key objects, its model input vectors (chord vector, key-change vector, flag; for the key sequence one row per chord since that model last ran), the prior it adds for its chord, and the chords, keys and change positions it reports are those of its path.",
  "every chord, key, pitch type, path, score, reduction and sequence of steps",
  "No existing test touches hypotheses; a field taken from the wrong predecessor or a score counted twice only shows after particular sequences of steps.",
  [U + "beam_search_utils.py"],
  [("steps", U + "beam_search_utils.py State.chord_transition, key_transition, rejoin, copy, add_ktm_log_prob, add_csm_prior"), ("objects and inputs", U + "beam_search_utils.py State.get_chord, get_key, get_csm_input, get_ktm_input, get_ksm_input"), ("path", U + "beam_search_utils.py State.get_chords, get_keys")],
  AI, "Refusal conditions as closed forms over symbolic root and tonic for a covering set (thorough: all) of types and inversions; scores symbolic along 18 orders of steps; objects, inputs and priors for covering paths in both pitch types." + TR)
JMF = "harmonic_inference/models/joint_model.py"
DSF = "harmonic_inference/data/datasets.py"
prop("C15", "The joint model: labels, forced labels, chord ranges, model runs and search",
  "A joint model is built only from a complete set of models with matching pitch types and consistent thresholds, and its chord and key label lists mean, id by id, what the classifier's and key model's outputs mean. Forced labels are accepted exactly if in range and free of contradictions. A certain change (forced or probability 1) is never passed by a chord range and a forced non-change never ends one; every range starts where a range can have ended, respects the length limit, holds at most one forced chord and one forced key, and is scored by the probabilities of not changing inside and changing at its end. Each sequence model is run on each hypothesis's own input, prepared with that model's own reduction and inversion settings, with that hypothesis's hidden state, and its output returns to it. Key changes branch into the likeliest representable, allowed keys, never the same key. The result of the search is a gapless path from first to last input over given ranges, with chords among each range's allowed best, that respects every forced label and whose score is the sum of its parts; a path which leads at every position, or which no beam can drop, is not beaten by what is returned; along it each recurrent model has seen each chord once, in the key settled on. Estimating a piece's harmony gives the change model the piece's notes, the classifier each possible range once and the search their answers, with the piece's own times.",
  "every piece, set of forced labels, change probabilities, thresholds, model settings, beam sizes and hash lengths",
  "No existing test builds a joint model; off-by-one ranges, outputs swapped between hypotheses in a batch, or an ignored forced label only show for particular combinations of probabilities and forced positions.",
  [JMF, U + "beam_search_utils.py"],
  [("construction, forced labels", JMF + " HarmonicInferenceModel.__init__, _validate_and_load_forced_labels"), ("ranges", JMF + " get_chord_ranges"), ("model runs", JMF + " get_key_change_probs, run_csm_batched / get_key_change_states"), ("search", JMF + " beam_search, get_harmony")],
  AI + ", models replaced by stand-ins that record their inputs", "Constant partitions: forced-label sets, change-probability patterns and thresholds are enumerated as constants over pieces of two to six inputs, and the abstract result is compared with an independent definition; the search is decided for three-input pieces, and get_harmony end to end for one four-note score piece per forced label kind. The networks are opaque: stand-ins give fixed outputs." + TR)
prop("C16", "Datasets: items, repeated reading, storage and splits",
  "Each item of a dataset holds exactly the vectors of its piece (chord-change data, chord sequences), chord (classification, per transposition) or key section (key data), reduced and stripped of inversions as asked, zero-padded, with its true length and with its own target; targets without meaning are masked, and a chord that cannot be transposed gives a masked item. Reading an item changes nothing: items do not depend on which were read before. A dataset written to a file and read back has the same length and items, whether it fits in memory or is read from disk item by item. Splitting a corpus puts every readable piece, with its own id, into exactly one split, within one piece of its share, after seeding as asked; unreadable pieces are left out without shifting others.",
  "every corpus, reduction, inversion and transposition setting, order of reads, storage mode, proportions, seed and shuffle order",
  "No existing test reads an item of these datasets; in-place reductions that leak into stored data, an off-by-one item-to-piece mapping, or a file that reads back differently only show for particular read orders and settings.",
  [DSF],
  [("items", DSF + " *Dataset.__init__, __getitem__, reduce"), ("storage", DSF + " HarmonicDataset.to_h5, pad_array, h5_to_dataset"), ("splits", DSF + " get_split_file_ids_and_pieces, get_dataset_splits")],
  AI + ", pieces and h5 files replaced by source-level stand-ins", "Constant partitions: three pieces with distinct notes, chords, keys and lengths per pitch type, in two orders, with the settings enumerated; vectors are compared with the documented encoding (the oracles of C07 and C08). Half-precision storage is compared to three decimals." + TR)
prop("C17", "Corpus cleaning: measures, notes, chords and ties",
  "Loading a corpus keeps, for every file, exactly one chain of measures: repeats and measures no longer reachable are removed and each measure's next is the measure that follows it in that chain, or none at the end. It keeps exactly the notes and labelled chords whose onset lies within one of those measures, under their own file. A note's offset is the position reached by walking its duration along the chain of measures of its file (staying in the last one); a chord lasts until the next chord of its file, or to the end of the last measure, counted along the same chain, and chords of no duration are dropped. Tied notes become one note with the summed duration and the last note's offset, joining only notes of one pitch in one file where one ends where the other begins. None of the tables given is changed, and one file's rows never influence another's.",
  "every corpus: any number of files and measures, pick-ups, split measures, repeats and endings, jumps, notes and chords in any position, chains of ties with or without beginnings and ends, files missing from some tables, corpora without annotations",
  "The existing tests compare single operations on the authors' corpus files; a lost measure in a corpus of one file, a position counted in the neighbouring file, or a tie joined across voices needs a particular corpus shape.",
  ["harmonic_inference/utils/corpus_utils.py", "harmonic_inference/data/corpus_reading.py"],
  [("measures", "harmonic_inference/utils/corpus_utils.py remove_repeats, remove_unmatched"), ("positions", "harmonic_inference/utils/corpus_utils.py add_note_offsets, add_chord_metrical_data"), ("ties", "harmonic_inference/utils/corpus_utils.py merge_ties"), ("loading", "harmonic_inference/data/corpus_reading.py load_clean_corpus_dfs")],
  AI + " with a model of pandas frames", "Constant partitions: seven corpora of one to four files with repeats, endings, pick-ups and jumps, ten sets of tied notes and five loading modes are interpreted abstractly and the resulting tables compared with independent definitions; reading the tsv files is replaced by given tables." + TR)
PCF = "harmonic_inference/data/piece.py"
prop("C18", "Pieces: contents, chord windows, durations and dictionaries",
  "A score piece built from a file's tables holds, in order, the notes of its readable note rows and the chords of its readable chord rows, immediate repetitions (under the inversion and suspension settings) joined to one chord that lasts to the end of the last. Each chord changes at the first note not before its onset (or at the last note), and its range of notes goes from the first note starting at or sounding past its onset up to the next chord's change (or the last note). Keys are those of the chords, one per stretch of chords in the same (relative or local, as asked) key, each placed at its first chord. Cached durations are the distances between neighbouring onsets, the last one up to the end of the last chord or note. A chord's classifier input holds the vectors of the notes of its range and window, in their places, with zeros where the window leaves the piece, each relative to that chord's onset and duration and to the notes in the window. The chords within a range of inputs are exactly those sounding during one of them. A piece written as a dictionary and read back is the same piece. Building and reading pieces changes no table, note, chord or key.",
  "every piece (also with one note, one chord or no annotations), reduction, merging option, pitch type, window, context size and range",
  "No existing test builds a piece; a merged chord with the wrong end, an off-by-one window at the piece's edges, or a cache counted in the wrong measure only shows for particular positions.",
  [PCF],
  [("building", PCF + " get_score_piece_from_data_frames, get_reduction_mask, get_range_start"), ("windows", PCF + " ScorePiece.get_chord_note_inputs, get_chord_note_input, get_duration_cache"), ("ranges", PCF + " ScorePiece.get_chords_within_range"), ("dictionaries", PCF + " ScorePiece.to_dict, get_score_piece_from_dict")],
  AI + " over data frames", "Constant partitions: several hand-made pieces per pitch type (ordinary, single note, single chord, unreadable rows, chord changes between notes, no annotations), all windows and ranges of each, several context sizes; compared with independent definitions and with the encoding oracles of C07/C08." + TR)
prop("C19", "Music XML scores: measures, notes and labels",
  "The measure table of a score lists its measures in order, first endings left out and time closed up over them, each with its number, the time signature in force, its start, its length, its place within its bar (pick-ups and split measures included) and the measure that follows (none after the last). Its notes are those of the measures kept, parts together, ties joined, chords note by note, each with its spelled pitch, the octave of its MIDI number, its length, and the measure, beat and metrical level of its onset and its offset. A labelled score holds the chord and key of each label row of positive length from the beginning on, each chord placed among the notes, and keys at the first chord in them; without labels the piece has notes only.",
  "every score (pick-ups, incomplete and single measures, repeated measure numbers, ties across measures, several parts), pitch type and label table",
  "No existing test loads a score.",
  [PCF, D + "note.py"],
  [("measures", "get_measures_df_from_music21_score"), ("notes", PCF + " get_notes_from_music_xml, " + D + "note.py Note.from_music21"), ("labels", PCF + " get_score_piece_from_music_xml")],
  AI + ", music21 scores replaced by source-level stand-ins", "Constant partitions over stand-in scores covering pick-ups, incomplete last measures, meter changes, shared measure numbers, ties, chords, rests and both pitch types; music21 itself is trusted." + TR)
EUF = "harmonic_inference/utils/eval_utils.py"
prop("C20", "Evaluation and annotation: accuracies, result, label and annotation tables",
  "Chord, key and joint accuracy are the share of the piece's duration during which estimate and annotation agree in root, reduced type and (if asked) inversion, in tonic and (if asked) mode, or in both, compared in the pitch type of the estimate. The results table has a row per note of positive duration with the annotated and estimated chord and key in the asked pitch types; the labels table the annotated root, type, inversion, alterations, tonic, mode, duration and position; the annotation table a row per change of the estimated key or chord, at the note where it changes; the label table marks each change green if estimate and annotation agree, yellow if they agree up to inversion and triad (or in the tonic), else red. A chord's alterations pair every changed chord tone with the pitch replacing it, and no tone with an added pitch. Pieces without annotation get estimates only. Averaging a log gives the mean of each kind of accuracy. Nothing evaluated is changed.",
  "every piece, hypothesis, note duration, pitch type, reduction, inversion and tonic setting, alteration",
  "No existing test evaluates a piece; a metric that counts notes instead of durations, shifts a change by one note or decodes in the wrong pitch type still gives plausible numbers.",
  [EUF, U + "harmonic_utils.py"],
  [("accuracies", EUF + " evaluate_chords, evaluate_keys, evaluate_chords_and_keys_jointly, get_chord_distance, get_key_distance"), ("tables", EUF + " get_results_df, get_labels_df, get_annotation_df, get_label_df"), ("alterations", U + "harmonic_utils.py get_added_and_removed_pitches, split_changes_into_list"), ("logs", EUF + " average_results")],
  AI + " over data frames", "Constant partitions: five pairs of annotation and hypothesis over eight notes whose durations are different powers of two (so every set of notes has its own share), in all pitch type pairs; 23 alteration lists over seven chords and four keys. Notes before the first annotated chord and classifiers with a reduced vocabulary are not covered." + TR)
ICF = M + "initial_chord_models.py"
prop("C21", "The initial chord prior: training, storing, reading, collapsing, evaluating",
  "The trained prior over the relative chords of a piece's beginning is, per mode, the number of training chords with that index plus an equal share of the smoothing, divided by the total, so that it sums to one. The stored file holds both priors, the pitch type, that inversions are present and that nothing is reduced, and reads back as the same values with pitch types, piece types, key modes and reductions as such. A model built from it answers with the prior of the mode asked for, as log on request; its settings are the file's own where given, else those asked for, never inversions the file does not hold; where a collapse is asked for, each chord's prior is the sum of the priors of all stored chords it stands for. Its accuracy is the percentage of pieces whose first chord is the likeliest of their first key's mode, its loss the mean negative log prior.",
  "every set of training chords, smoothing, pitch type, mode, reduction and inversion setting, set of pieces",
  "No existing test builds this model; a prior read in the wrong mode or a collapse losing probability mass still yields a plausible distribution.",
  [ICF, U + "data_utils.py"],
  [("training and storing", ICF + " train_icm"), ("reading", U + "data_utils.py load_kwargs_from_json"), ("settings, collapse", ICF + " SimpleInitialChordModel.__init__"), ("prior", ICF + " get_prior"), ("evaluation", ICF + " evaluate")],
  AI, "Constant partitions: several sets of training chords per pitch type, smoothing amounts and five settings; every entry of every prior is compared with the definition (collapses against the vocabulary of C01). The json text itself is trusted." + TR)
prop("C22", "Forced labels written into a score are read and placed exactly",
  "Of the labels and lyrics in a score, those forcing a chord or key change or non-change, a chord or a key are read as exactly that: the root spelled, the full chord type (sevenths and altered types included), the inversion (root position if none is written), the tonic, and the mode by the tonic's case, at the measure and onset where they are written; everything else is ignored. Each position becomes the index of the first note of the piece with exactly that onset, keeping what is forced; a position where no note begins (also one after the last note) is rejected with ValueError.",
  "every label text, chord type, root, inversion, measure and onset; every piece and set of positions",
  "No existing test covers forces; labels which are prefixes of others, or a position between or after notes, need particular inputs.",
  [U + "forces.py"],
  [("reading labels", U + "forces.py extract_forces_from_musescore"), ("placing", U + "forces.py convert_score_positions_to_note_indexes")],
  AI + " with source models of the regular expressions and label tables", "Constant partitions: every chord type with and without inversions, spelled roots and keys in both cases, marks and irrelevant texts in labels and lyrics; positions before, at, between and after notes. ms3's score parsing is replaced by given tables." + TR)
prop("C23", "Loading pieces and trained models: the right ones, in the right order",
  "Loading the pieces of a corpus or of a folder of scores gives exactly the pieces asked for (all of them, those with given ids, or the one specific id), each once, in the order of its id, each with its own labels if it has any, whether built anew or from stored pieces. Files that cannot be read are left out (or rejected as documented) without shifting the others. Of the stored models of each kind, the one asked for by the options (the given version and checkpoint) is loaded with the class that belongs to its kind; if there is none, the program ends with an error instead of continuing without it.",
  "every set of files, labels, ids, stored pieces, versions and checkpoints",
  "No existing test loads pieces by id or a model; labels shifted by one file, or a model of another version, give plausible results.",
  [U + "data_utils.py"],
  [("pieces", U + "data_utils.py load_pieces"), ("models", U + "data_utils.py load_models_from_argparse, add_model_args")],
  AI + " with a model of the file system", "Constant partitions: several sets of files with and without labels, id lists, stored pieces and folders of checkpoints, enumerated; building pieces, reading checkpoints and the corpus tables are replaced by recording stand-ins." + TR)
prop("C24", "Programs: options reach the joint model, every piece is annotated, grids are run",
  "Each option of the joint model given on the command line has its value in the model built, and options not given have their default; --defaults and --fh-defaults set the documented hyperparameters. Annotating loads the pieces and models asked for, builds one joint model from them, estimates each piece (with its forced labels, if there are any) and writes its annotation under its own name in the output folder. Testing does the same with the test split of the seed given. The grid search runs one program for each combination of the values given for the options, no combination twice or left out, each with its own log.",
  "every command line, set of pieces, models and grid",
  "No existing test runs a program; an option that is parsed and then ignored changes nothing visible but the quality of the results.",
  ["annotate.py", "test.py", "grid_search.py", JMF],
  [("options", JMF + " add_joint_model_args, from_args"), ("annotating", "annotate.py main part"), ("grids", "grid_search.py main part")],
  AI + " of the programs' main parts with models of argparse and the file system", "Constant partitions: every option of the joint model is set once to a value of its own; two to three pieces; several grids. Loading and estimating are replaced by recording stand-ins (decided by C23 and C15)." + TR)
prop("C25", "Data creation and training: right files, splits, settings and places",
  "Creating data uses exactly the files asked for (all, of the given corpora, the first few, or the scores that have labels, each with its own), the given proportions normalised, and the given seed; it writes every non-empty split of every kind of data to a file of its own with the ids of its pieces, and the pieces themselves beside it; negative or empty proportions are refused. Training builds the model asked for with the settings given, with pitch types the joint model accepts together; reads the training and validation files which data creation writes for that kind, split and seed, prepared with the model's own settings; and stores its checkpoints where the other programs look for them. The initial chord prior is trained on the first chord of each training piece.",
  "every command line, corpus, seed, set of splits and model kind",
  "No existing test runs a program; training on the validation file or writing the ids of another split only shows as slightly wrong figures.",
  ["create_h5_data.py", "train.py"],
  [("creating", "create_h5_data.py main part"), ("training", "train.py main part")],
  AI + " of the programs' main parts with models of argparse and the file system", "Constant partitions over command lines; datasets, networks, the trainer and h5 files are replaced by recording stand-ins (datasets are decided by C16). Learning itself is not covered." + TR)

prop("C26", "Corpus tables: aggregation, reading of columns, writing labels to scores",
  "Aggregating a corpus yields, for every annotated file found under the input directory, one entry in the file table and exactly its own chords, notes and measures, indexed by that file's id, whatever tables are missing or unreadable (those are reported and left out, never mixed up with another file's); notes-only aggregation also keeps files without annotations. Reading a table back restores every column in the type the pieces are built from (fractions, whole numbers, truth values, tuples; nothing for what is empty). Writing labels to scores puts every label table into the score of the same corpus and name, an error at one leaving the others.",
  "every set of files, table and command line",
  "No existing test aggregates, reads or writes a corpus; a table attached to the wrong file id only shows as bad training data.",
  ["harmonic_inference/data/corpus_reading.py", "harmonic_inference/data/corpus_constants.py", "aggregate_corpus_data.py", "write_to_score.py"],
  [("aggregation", "harmonic_inference/data/corpus_reading.py aggregate_annotation_dfs"), ("reading", "harmonic_inference/data/corpus_reading.py read_dump"), ("column types", "harmonic_inference/data/corpus_constants.py CONVERTERS, DTYPE"), ("programs", "aggregate_corpus_data.py and write_to_score.py main parts")],
  AI + " of the functions and the programs' main parts with models of pandas, argparse and the file system", "Constant partitions over sets of files, cell texts and command lines; pandas' own parsing of a file and music21/ms3 score handling are replaced by recording stand-ins." + TR)

NAW = "Many inputs and trained models would have to be run and measured; no test can settle it."
prop("C90", "Trained models: accuracy of the estimated chords and keys", "The joint model's estimates agree with expert annotations as well as published.", "every piece", NAW, [JMF], [("estimates", JMF + " get_harmony")],
  na="depends on learned weights and data that are not in the repository; nothing in the source bounds it")
prop("C91", "Training converges and early stopping keeps the best model", "Training ends with the model of lowest validation loss.", "every data set, seed and model", NAW, ["train.py"], [("training", "train.py main part")],
  na="depends on the numerical behaviour of gradient descent and on pytorch lightning's callbacks, which no static argument over this source bounds")
prop("C92", "Pruned search is close to the best path", "The path found has nearly the highest score of all paths.", "every piece, beam size and model output", NAW, [JMF], [("search", JMF + " beam_search, get_harmony")],
  na="beam search is a heuristic: how much pruning loses depends on the runtime probabilities; C15 decides what holds regardless (validity, scores, and the best path where it leads everywhere)")
prop("C93", "Estimation time is bounded by piece length and beam size", "Annotating a piece takes time in proportion to its number of ranges, the beam size and the branching limits.", "every piece and setting", NAW, [JMF], [("search", JMF + " beam_search, get_harmony")],
  na="running time depends on hardware and on networks that are opaque here")
