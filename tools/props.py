#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl."""
import json, os

def P(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}

GRID = "src/Engine/gramambular2/reading_grid.cpp"
GRIDH = "src/Engine/gramambular2/reading_grid.h"
KH = "src/KeyHandler.cpp"
LM = "src/Engine/McBopomofoLM.cpp"
PDB = "src/Engine/ParselessPhraseDB.cpp"
PLM = "src/Engine/ParselessLM.cpp"
ASSOC = "src/Engine/AssociatedPhrasesV2.cpp"
KV = "src/Engine/KeyValueBlobReader.cpp"
ENG = "src/McBopomofo.cpp"
LML = "src/LanguageModelLoader.cpp"

KHTEST = ("The stable suite contains no key handler test at all (KeyHandlerTest needs a data file that "
          "is not built), and even those cases type a few dozen fixed sequences under default settings; ")

PROPS = [
P("C01", "Conversion picks the best-scoring segmentation of the readings",
  "For any sequence of typed readings, the conversion result splits the readings into consecutive phrases that together cover every reading exactly once, every phrase being one the language model offers for exactly those readings. "
  "Among all such splits it has the greatest total score, a phrase the user chose counting with the boosted score of that choice. Asking for the conversion again without editing gives the same result.",
  ["inputs", "histories"],
  "every language model, every reading sequence, every sequence of insertions, deletions, cursor moves and candidate selections before the conversion is asked for",
  "ReadingGridTest converts a handful of fixed sentences with one model and compares literal output; optimality over all segmentations and after arbitrary edits is never checked.",
  [GRID, GRIDH], [("shortest-path relaxation over spans", GRID+" ReadingGrid::walk"), ("span population", GRID+" ReadingGrid::update")],
  ["ReadingGrid::walk() result", "ReadingGrid::spans()"]),
P("C02", "What the composition can convert to does not depend on how it was edited",
  "After any history of typing, deleting in either direction, moving the cursor and clearing, the set of phrases available over each stretch of readings is exactly what the language model offers for that stretch, as if the final readings had been typed in one go. "
  "A refused insertion or deletion (no such reading, or nothing to delete) leaves the composition as it was.",
  ["histories", "inputs"],
  "every history of insert, delete-before, delete-after, cursor moves, clears and refused operations, over every language model",
  "Existing grid tests check node presence after a few hand-written edits at chosen positions; stale or missing phrases appear only for particular edit positions relative to phrases of particular lengths.",
  [GRID, GRIDH], [("affected span removal and refill", GRID+" insertReading/deleteReadingBeforeCursor/expandGridAt/shrinkGridAt/update")],
  ["ReadingGrid::spans(), readings(), cursor(), walk()"]),
P("C03", "Candidate list is complete, sound and ordered",
  "The candidates offered at a position are exactly the phrases the language model has for the stretches of readings that contain that position (the last reading, when asking at the end), none missing and none foreign, each tied to its readings. "
  "Phrases over more readings come before shorter ones, and within one stretch they keep the language model's order of preference. Asking for candidates changes nothing.",
  ["histories", "inputs"],
  "every composition reached by any editing and selection history, every position, every language model",
  "Existing tests look at candidate lists of one or two sentences; whether selections, edits and position boundaries lose or add candidates is not sampled.",
  [GRID, GRIDH], [("candidate collection", GRID+" candidatesAt/overlappingNodesAt"), ("ordering by length", GRID+" candidatesAt")],
  ["ReadingGrid::candidatesAt"]),
P("C04", "A chosen candidate stays chosen until its own readings are touched",
  "After the user picks a candidate, the conversion shows that phrase over those readings, and it keeps showing it through later typing, deleting and candidate choices elsewhere in the composition. "
  "The choice is given up only when one of its readings is deleted, a reading is inserted inside it, or another choice that overlaps it is made; a pick that the composition does not offer at that place is refused and changes nothing.",
  ["histories"],
  "every interleaving of candidate selections with insertions and deletions at other positions, over language models whose score differences are smaller than the boost of a choice",
  "Existing tests override one or two candidates and walk at once; interleavings of selections with edits at neighbouring positions are not sampled.",
  [GRID, GRIDH], [("override of a node and reset of overlapping ones", GRID+" overrideCandidate"), ("invalidations on edit", GRID+" removeAffectedNodes")],
  ["ReadingGrid::walk() and overrideCandidate() result"], [("override type and score of a node", "which choice is in force", GRIDH)]),

P("C05", "Dictionary lookup returns exactly the rows of the reading",
  "For every well-formed sorted phrase table and every reading, looking the reading up gives exactly the phrases and scores of the rows whose reading equals it, in file order, and the answer to whether there are any agrees with that. "
  "Readings that are prefixes of one another, absent, first, last, or sorted outside the table are no exception.",
  ["inputs"], "every sorted table (row lengths, key prefixes, first and last rows, single row, empty table, score formats) and every key",
  "ParselessLMTest and ParselessPhraseDBTest look up a few keys of short fixed tables; which row the search lands on depends on byte offsets over the whole file.",
  [PDB, PLM, "src/Engine/ParselessPhraseDB.h"], [("search for the first matching line", PDB+" findFirstMatchingLine"), ("row parsing", PLM+" getUnigrams")],
  ["ParselessLM::getUnigrams/hasUnigrams", "ParselessPhraseDB::findRows/findFirstMatchingLine"]),
P("C06", "Reverse lookup finds every reading of a phrase",
  "For every phrase table, asking which readings a phrase has gives exactly the readings (and scores) of the rows whose phrase equals it, wherever in the table the rows are, including the first and the last row with or without a final newline. "
  "A phrase that merely begins with, ends with or contains the one asked for is not reported.",
  ["inputs"], "every table and every phrase, present or not",
  "Existing tests reverse-look-up a few values in one fixed table, none at the very end of the data.",
  [PDB, PLM, KH], [("reverse row scan", PDB+" reverseFindRows"), ("row parsing", PLM+" getReadings")],
  ["ParselessLM::getReadings", "ParselessPhraseDB::reverseFindRows"]),
P("C07", "User phrases, exclusions, replacements and conversion apply in the right order",
  "What the language model offers for a reading is the user's phrases first and then the dictionary's, minus excluded phrases, with enabled replacements and the external conversion applied to what is left, input macros expanded, no value listed twice and none that is not valid text. "
  "A user phrase of more than one syllable outranks the dictionary's, a one-syllable one is ranked just above the best dictionary entry, and with the replacements or converter switched off the result is as if they did not exist.",
  ["inputs", "configurations"], "every combination of dictionary, user phrases, excluded phrases, replacement table, converter and macro settings, and every reading",
  "McBopomofoLMTest tries each stage separately on one or two readings; interactions of stages, repeated values and ordering are not covered.",
  [LM, "src/Engine/UserPhrasesLM.cpp", "src/Engine/PhraseReplacementMap.cpp"], [("merge of user and dictionary unigrams", LM+" getUnigrams"), ("filter and transform", LM+" filterAndTransformUnigrams")],
  ["McBopomofoLM::getUnigrams"]),
P("C08", "A reading is reported as known exactly when it has something to offer",
  "The language model says it knows a reading if and only if asking for that reading's phrases gives at least one; so a reading accepted into the composition can always be converted, and one whose every phrase is excluded is refused instead of breaking the conversion.",
  ["inputs", "configurations"], "every combination of data, exclusions, macros and settings, and every reading",
  "The tests ask about a few readings with one excluded phrase; agreement over all data and settings combinations is not checked.",
  [LM, PLM, "src/Engine/UserPhrasesLM.cpp", GRID], [("existence check", LM+" hasUnigrams"), ("insertion guard", GRID+" insertReading")],
  ["McBopomofoLM::hasUnigrams vs getUnigrams", "ReadingGrid::insertReading"]),
P("C09", "Associated phrases found are exactly those that continue the given text",
  "For a given prefix of characters and readings, the associated phrases returned are exactly the table's entries that begin with these characters (and readings, where given) and go on, each value once with its best reading, best score first. "
  "Splitting a reading into syllables and combining them again gives back the original.",
  ["inputs"], "every sorted associated-phrase table and every prefix of values and readings",
  "AssociatedPhrasesV2Test queries a few prefixes of a fixed table.",
  [ASSOC, "src/Engine/AssociatedPhrasesV2.h", KH], [("prefix search and ranking", ASSOC+" findPhrases"), ("reading split/combine", ASSOC+" SplitReadings/CombineReadings")],
  ["AssociatedPhrasesV2::findPhrases"]),
P("C10", "User text files are read faithfully, whatever is in them",
  "Every well-formed line of a user phrase, excluded phrase or replacement file takes effect exactly as written, in order, with comments, blank lines, any kind of white space, any line ending and a missing final newline tolerated. "
  "Reading stops cleanly at the first malformed line, with the lines before it kept and an error reported for that line; no file content makes the reader look outside the file's bytes.",
  ["inputs"], "every byte string as file content, including truncated lines, NUL bytes, stray carriage returns, very long lines and invalid UTF-8",
  "KeyValueBlobReaderTest lists about twenty blobs; buffer-boundary behaviour depends on arbitrary endings.",
  [KV, "src/Engine/UserPhrasesLM.cpp", "src/Engine/PhraseReplacementMap.cpp", "src/Engine/KeyValueBlobReader.h"], [("line state machine", KV+" KeyValueBlobReader::Next"), ("load loops", "src/Engine/UserPhrasesLM.cpp load")],
  ["KeyValueBlobReader::Next", "UserPhrasesLM::getUnigrams", "PhraseReplacementMap::valueForKey"]),
P("C11", "Data files can be missing, empty, replaced or reloaded without harm",
  "Loading any path (a good file, an empty one, a missing one, a directory, an unreadable one, a file without the expected header) either succeeds and then answers from that file's content, or fails and leaves the model answering as if it had no data; it never crashes. "
  "Closing and opening again in any order answers from the last successfully opened file only.",
  ["fault_sequences", "inputs"], "every sequence of open, close, reopen, move and lookup calls over every kind of path",
  "MemoryMappedFileTest opens one good file and a missing one; sequences, empty files and directories are not tried.",
  ["src/Engine/MemoryMappedFile.cpp", PLM, LM, "src/Engine/UserPhrasesLM.cpp", ASSOC], [("mmap life cycle", "src/Engine/MemoryMappedFile.cpp open/close"), ("pragma check", PDB+" ValidatePragma")],
  ["open() result followed by lookups, under AddressSanitizer"]),
P("C12", "Learned choices are suggested back, bounded and decaying",
  "A choice the user made in a context is suggested again in the same context; among several choices observed there, the one with the greatest share of observations weighted by half-life decay since it was last made is the one suggested. "
  "Nothing is ever suggested that was not observed in that context, nothing after it has decayed away, and only the most recently used contexts up to the capacity are remembered.",
  ["histories"], "every history of observed choices and suggestions over contexts, candidates, times and capacities",
  "UserOverrideModelTest has a few scripted observations; eviction order and competing candidates over long histories are not covered.",
  ["src/Engine/UserOverrideModel.cpp", "src/Engine/UserOverrideModel.h"], [("observation and LRU eviction", "src/Engine/UserOverrideModel.cpp observe"), ("decayed scoring", "src/Engine/UserOverrideModel.cpp suggest/Score")],
  ["UserOverrideModel::suggest"]),
P("C13", "UTF-8 counting, cutting and splitting respect characters",
  "For every valid UTF-8 text the number of characters, the prefix of n characters and the list of characters agree with the standard decoding: the list concatenates back to the text and a cut never divides a character. "
  "For invalid bytes the functions stop at the first invalid sequence, never read outside the text and stay consistent with one another.",
  ["inputs"], "every byte string and every count",
  "UTF8HelperTest has about a dozen strings; truncated and ill-formed sequences at buffer ends are combinatorial.",
  ["src/Engine/UTF8Helper.cpp", "src/Engine/UTF8Helper.h"], [("decoder", "src/Engine/UTF8Helper.cpp")], ["CodePointCount/SubstringToCodePoints/Split/GetCodePoint"]),
P("C14", "Chinese numerals denote the number typed",
  "For every decimal number typed, the Chinese numeral generated (in ordinary or formal characters) reads back as exactly that number, in standard form with zeros marked where and only where required, and the decimals digit by digit. "
  "Ordinary and formal output differ in the characters only.",
  ["inputs"], "every integer part (including empty, zeros, leading zeros, interior zero runs, 16 and more digits) and every decimal part",
  "ChineseNumberTest lists a few dozen numbers; zero-run positions relative to 10^4 groups are combinatorial.",
  ["src/ChineseNumbers/ChineseNumbers.cpp", "src/ChineseNumbers/StringUtils.cpp"], [("four-digit section converter", "src/ChineseNumbers/ChineseNumbers.cpp")], ["ChineseNumber::Generate"]),
P("C15", "Suzhou numerals denote the number typed",
  "For every decimal number typed, the Suzhou numeral generated contains the number's significant digits in order with 一二三 alternating in horizontal and vertical forms as the notation requires, and its place word names the magnitude of the first digit, so that it reads back as the same number.",
  ["inputs"], "every integer and decimal part, including zeros, leading and trailing zeros, runs of 1 2 3 of any length",
  "SuzhouNumberTest has about a dozen numbers; alternation depends on the whole run before each digit.",
  ["src/ChineseNumbers/SuzhouNumbers.cpp"], [("digit alternation and place names", "src/ChineseNumbers/SuzhouNumbers.cpp")], ["SuzhouNumber::Generate"]),
P("C16", "Bopomofo syllables survive every change of representation",
  "For every syllable, turning it into Bopomofo text or into key strokes of a layout with one symbol per key and reading that back gives the same syllable; so do the key strokes of the layouts with shared keys and the Hanyu Pinyin spelling, for every complete real syllable (the lone ㄝ, ㄟ, ㄥ, for which such layouts have no distinct strokes, excepted). "
  "Arbitrary text given to be read as a syllable yields the symbols it begins with or nothing, without looking outside the text.",
  ["inputs"], "all syllable values (every consonant, medial, vowel and tone combination), all layouts, and arbitrary byte strings as input text",
  "MandarinTest checks a few syllables under the standard layout.",
  ["src/Engine/Mandarin/Mandarin.cpp", "src/Engine/Mandarin/Mandarin.h"], [("composed string and pinyin conversion", "src/Engine/Mandarin/Mandarin.cpp FromComposedString/composedString/FromHanyuPinyin/HanyuPinyinString"), ("key sequences of a layout", "src/Engine/Mandarin/Mandarin.h keySequenceFromSyllable/syllableFromKeySequence")],
  ["BopomofoSyllable API"]),
P("C17", "The reading being typed follows the keyboard layout",
  "Under each keyboard layout the keys valid for that layout, and only those, build the reading: with one symbol per key each key sets its own component, replacing a previous one of that kind; with shared keys typing the keys of a real syllable gives that syllable. Backspace removes the last component in standard order, and clearing empties the reading. "
  "Changing the layout at any moment leaves the reading buffer fully governed by the new layout; in Hanyu Pinyin what is shown is what was typed, and the reading counts as empty exactly when nothing is shown.",
  ["histories", "configurations"], "every key sequence with backspaces, clears and layout changes, for all layouts",
  "MandarinTest types a few syllables; histories that mix layouts are not covered.",
  ["src/Engine/Mandarin/Mandarin.cpp", "src/Engine/Mandarin/Mandarin.h", KH], [("reading buffer", "src/Engine/Mandarin/Mandarin.h BopomofoReadingBuffer"), ("layout tables and Eten26/Hsu disambiguation", "src/Engine/Mandarin/Mandarin.cpp")],
  ["BopomofoReadingBuffer combineKey/backspace/composedString/isEmpty"]),

P("C18", "The composition shown is the conversion of what was typed",
  "After every key, the text shown while composing is the conversion of the readings accepted so far with the reading being typed displayed at the cursor, and nothing else; the cursor stands between whole characters inside that text. "
  "The states handed to the user interface are well formed: a marked range lies inside the text, candidate lists are non-empty, and an empty composition is never shown as non-empty.",
  ["histories", "inputs", "configurations"], "every key sequence, every setting and keyboard layout",
  KHTEST+"the correspondence after arbitrary histories is never checked.",
  [KH, "src/InputState.h", GRID], [("composed string building", KH+" getComposedString/buildInputtingState"), ("key dispatch", KH+" handle")], ["states passed to the state callback", "states passed on candidate selection"]),
P("C19", "Typed text is committed once, whole and as shown",
  "Text leaves the composition only by being committed, and what is committed is exactly what was shown; after the commit the composition is empty, and before it nothing shown is lost except through keys that delete or cancel. "
  "Punctuation, letters and other characters accepted during composing take their place at the cursor in the composition or are committed after it in the order typed.",
  ["histories", "configurations"], "every key sequence that mixes typing, committing, punctuation, letters with and without Shift, and settings",
  KHTEST+"conservation of text across arbitrary sequences is never checked.",
  [KH], [("commit paths", KH+" handle/handlePunctuation/handleEnterKey")], ["Committing states and the sequence of composing buffers"]),
P("C20", "Editing keys act like a text editor's on the readings",
  "Left, right, home and end move the cursor by one reading or to the ends, backspace and delete remove the one reading before or after the cursor, and escape discards only what the settings say. "
  "At the ends they change nothing and say so, and while a reading is incomplete cursor keys are refused and backspace edits the reading only.",
  ["histories"], "every history of typing and editing keys (with main or numeric pad keys), vertical or horizontal",
  KHTEST+"editing is tried with two or three keys on a two-character text.",
  [KH, GRID], [("cursor and deletion keys", KH+" handleCursorKeys/handleBackspaceKey/handleDeleteKey/handleEscKey")], ["states after each key"]),
P("C21", "Marking selects whole readings and adds just the marked phrase",
  "While marking, the marked part always consists of the characters between the anchor and the cursor, moving by whole readings and never outside the text, and leaving the marking restores the composition unchanged. "
  "Confirming adds exactly the marked characters with exactly their readings as a user phrase, only when the length is allowed and the phrase is not already known, and otherwise says why not and adds nothing.",
  ["histories", "inputs"], "every composition, every sequence of shift-arrow, home, end and confirming keys, including phrases whose characters and readings differ in number",
  KHTEST+"marking has a handful of cases with one-to-one character/reading texts.",
  [KH, "src/InputState.h", LML], [("marking state construction", KH+" buildMarkingState/handleMarkingState"), ("phrase addition", LML+" addUserPhrase")], ["Marking states", "calls to add a user phrase"]),
P("C22", "Choosing a candidate puts that candidate in place",
  "The candidate window lists the conversions available at the cursor; choosing one puts exactly that text over its readings and changes no characters beyond those readings other than through a better conversion around it, and cancelling restores the composition as it was. "
  "The rotating key visits the same candidates in order, forwards and backwards, and the cursor ends where the settings say.",
  ["histories", "configurations"], "every composition, cursor position, candidate, settings for cursor position and cursor movement, and repeated rotation",
  KHTEST+"candidate selection is hardly covered there.",
  [KH, GRID], [("candidate choice", KH+" candidateSelected/pinNode"), ("rotation", KH+" handleTabKey")], ["ChoosingCandidate states and states after selection"]),
P("C23", "Associated phrases extend the chosen text where it stands",
  "The associated phrases offered for the text before the cursor all start with that text and its readings; choosing one leaves that text in place and inserts the rest of the phrase with its readings right after it, with all other text before and after unchanged. "
  "A phrase whose readings cannot be accepted is not half inserted, and cancelling changes nothing.",
  ["histories", "configurations"], "every composition, cursor position inside or at its end, and every offered phrase",
  KHTEST+"no test inserts an associated phrase.",
  [KH, ASSOC], [("insertion of an associated phrase", KH+" pinNodeWithAssociatedPhrase/candidateAssociatedPhraseSelected")], ["AssociatedPhrases states and the state after selection"]),
P("C24", "Plain Bopomofo converts one reading at a time",
  "In plain Bopomofo mode, each completed reading or punctuation offers the dictionary's candidates for that reading alone (a single candidate is committed at once), and choosing one commits exactly that text, leaving nothing behind from earlier input. "
  "Associated phrases, where switched on, offer continuations of what was just committed, and choosing one commits only the continuation.",
  ["histories", "configurations"], "every key and selection sequence in plain mode, with associated phrases on and off",
  KHTEST+"two cases use plain mode.",
  [KH, ENG], [("plain mode paths", KH+" handle, candidateSelected")], ["states and committed text in plain mode"]),
P("C25", "Number and feature input modes accept and produce only what they say",
  "In the number modes only digits (and one decimal point where allowed, up to the length limit) are accepted, backspace removes the last, escape leaves without output, and confirming commits the numeral of exactly the digits shown; the enclosing-number mode offers only forms that exist for the number. "
  "Opening the feature menu commits the composition in progress, so that nothing typed is lost, and every feature of the menu leads where its name says.",
  ["histories"], "every key sequence from the feature menu through every number mode",
  "No test reaches these modes.",
  [KH, "src/InputState.h"], [("number modes", KH+" handleChineseNumber/handleEnclosingNumber"), ("menu", "src/InputState.h SelectingFeature")], ["states and committed text"]),
P("C26", "Alternative outputs describe the composition's own readings",
  "The alternative outputs of the commit key (Bopomofo readings joined by hyphens, or HTML ruby) list, in order and completely, the readings and phrases of the composition as shown, punctuation appearing as itself, and nothing is committed when there is nothing to describe. "
  "With the option off the composition is untouched and the key is passed on.",
  ["histories", "configurations"], "every composition and each setting of the option",
  KHTEST+"two cases try one composition.",
  [KH], [("ctrl-enter outputs", KH+" handleEnterKey/getBasicBopomofo...")], ["Committing states after Ctrl-Enter"]),
P("C27", "A key is either used or passed on, never both, and errors do no harm",
  "Every key is either passed to the application with nothing changed, or consumed with its effect shown; keys with nothing to do in an empty composition reach the application, and no character, cursor or deletion key typed without Ctrl in the middle of a composition leaks to it. "
  "A refused key signals an error and leaves the readings, conversion and cursor as they were.",
  ["histories", "inputs", "configurations"], "every key in every reachable state under every setting",
  KHTEST+"few keys are tried and never their return value together with the state.",
  [KH], [("handle return value, state and error callbacks", KH+" handle")], ["return value, state and error callbacks per key"]),
P("C28", "No key sequence can crash the input method or corrupt memory",
  "Whatever sequence of keys, selections, resets, setting changes and data reloads occurs, with whatever dictionary and user data, the converter neither reads nor writes outside its memory, hits no undefined behaviour, fails no internal consistency assertion, and returns promptly.",
  ["histories", "inputs", "configurations"], "every event sequence under every setting, with normal and degenerate dictionaries",
  KHTEST+"none runs under sanitizers.",
  [KH, GRID, LM, "src/Engine/Mandarin/Mandarin.cpp"], [("whole key handling stack", KH)], ["AddressSanitizer, UBSan, libstdc++ assertions, internal asserts, time"]),
P("C29", "Added user phrases persist and never damage the file",
  "Adding a phrase takes effect at once and is there after a restart, and so are all phrases added or written by hand before; the file only ever grows by whole well-formed lines, whatever it ended with. "
  "The user's directory and files are made when they are missing. A failed addition (no file, read-only, full disk) does not count as added, leaves the file as it was and does not crash.",
  ["histories", "fault_sequences"], "every initial file content, sequence of additions and restarts, and file-system fault",
  "No test loads user files through the loader; fault and quick-succession behaviour is not sampled.",
  [LML, "src/LanguageModelLoader.h", ENG], [("append", LML+" addUserPhrase"), ("reload", LML+" reloadUserModelsIfNeeded")], ["file bytes and language model answers after each addition"]),
P("C30", "Edits to user files are picked up, and only edits",
  "When a user file appears, changes or is replaced between two uses, the next use works with the new content; until then, and when nothing changed, the answers stay as they were, however the file is being edited. "
  "Change detection reports a change exactly when the file's time stamp or existence has changed since the last check, and can be asked about any path.",
  ["histories", "fault_sequences"], "every sequence of creating, editing, replacing, touching and removing the files between checks",
  "TimestampedPathTest has five scripted scenarios; the loader's own reload is never tested.",
  ["src/TimestampedPath.cpp", "src/TimestampedPath.h", LML], [("time stamp check", "src/TimestampedPath.cpp"), ("reload", LML+" reloadUserModelsIfNeeded")], ["TimestampedPath API; language model answers after reload"]),
P("C32", "Dictionary services open the right address for the word",
  "The services offered for a word are exactly the valid entries of the configuration plus the built-in one, in order, and choosing one opens that service's address with the word put in place of every marker, encoded so that the address carries just that word, and nothing else of the template changed. "
  "A missing or malformed configuration never prevents the use of the rest or crashes.",
  ["inputs", "fault_sequences"], "every configuration file content (valid, malformed, partial) and every selected phrase",
  "DictionaryService has no test.",
  ["src/DictionaryService.cpp", "src/DictionaryService.h"], [("configuration load", "src/DictionaryService.cpp DictionaryServices::load"), ("address building", "src/DictionaryService.cpp HttpBasedDictionaryService")], ["program and arguments started", "state callback", "menu texts"]),
P("C33", "Date and time macros expand to the date they name",
  "Each input macro yields the date, time, year, weekday or other notion its name says for the current moment, with yesterday and tomorrow exactly one calendar day away, in the era and calendar it names. "
  "Text that is no known macro is left exactly as it is.",
  ["inputs", "histories"], "every macro at every moment (month, year, leap-day, era and day boundaries) and every non-macro text",
  "Input macros have no test.",
  ["src/InputMacro.cpp", "src/InputMacro.h"], [("macro table and formatting", "src/InputMacro.cpp")], ["InputMacroController::handle"]),
P("C34", "Text reaches the application exactly once and in step with the display",
  "The composing text shown in the application is always the current composition with its cursor, it disappears when the composition ends, and every commitment delivers its text exactly once. "
  "Losing the focus or deactivating the input method delivers or discards the composition as a whole without leaving it behind for the next application.",
  ["histories", "schedules"], "every order of key events, focus changes, resets, activations and input-method switches on one or more input contexts",
  "No test covers the engine's interaction with an input context.",
  [ENG, "src/McBopomofo.h"], [("state to preedit/commit mapping", ENG+" enterNewState/updatePreedit/reset/deactivate")], ["commit and preedit calls observed at the input context"]),
P("C35", "What a selection key picks is what the window shows beside it",
  "In the candidate window, pressing a selection key or choosing the highlighted entry picks precisely the entry displayed under that key or highlight on the current page, whatever paging and cursor movement came before. "
  "All candidates can be reached by paging, the window is laid out as configured, and keys that are neither selection nor window keys do not pick anything.",
  ["histories", "configurations"], "every candidate list length, page, cursor movement, window orientation and selection key setting",
  "No test covers the candidate window.",
  [ENG, "src/McBopomofo.h"], [("candidate key handling", ENG+" handleCandidateKeyEvent"), ("list building", ENG+" handleCandidates")], ["candidate list in the input panel and the resulting commits/preedit"]),
P("C36", "Physical keys and configuration mean what they say",
  "Every physical key produces the input it is labelled with, the numeric pad keys the digits, signs and movements printed on them, and modified shortcuts not owned by the input method reach the application. "
  "Each configuration option takes effect at the latest when the input method is next activated, is saved and survives a restart, and switching options off restores the earlier behaviour.",
  ["inputs", "configurations"], "every key symbol with every modifier set, and every combination and order of configuration changes",
  "No test covers key mapping or configuration.",
  [ENG, "src/Key.h"], [("key mapping", ENG+" MapFcitxKey"), ("configuration application", ENG+" setConfig/activate/keyEvent")], ["preedit, panel and commits after keys, under configurations"]),
P("C37", "No sequence of framework events can crash the engine",
  "Whatever order of key presses and releases, focus changes, resets, candidate clicks and paging, mode switches, configuration reloads and menu actions the framework delivers, the engine does not use freed or foreign memory, hits no undefined behaviour or uncaught exception, and returns promptly.",
  ["schedules", "histories", "configurations"], "every event sequence on any number of input contexts, with candidate words selected directly or by key",
  "No test drives the engine.",
  [ENG, "src/McBopomofo.h", KH], [("state ownership across callbacks", ENG+" keyEvent, handleCandidateKeyEvent, candidate word select()")], ["AddressSanitizer, UBSan and libstdc++ assertions while events are delivered"]),
P("C38", "Messages and file headers are right in every shipped language",
  "Whatever language the desktop uses, each hint, notice, menu entry and option description the user sees is whole: it holds the phrases, readings, services and numbers it speaks of in their places, no placeholder is left, different situations are told apart, and the key to press is named when it does something and only then. "
  "All of these texts can be translated, and no translation makes an action fail. The files made for the user hold only comments in every language, with an example that works, and phrases can be added to them at once.",
  ["configurations", "histories", "inputs"],
  "every shipped catalog (and none), every history of typing, marking, moving, looking up, toggling and restarting with or without user files, and every marked or looked-up text",
  "No test loads a catalog or compares a message; a format mistake in one translation throws only when that message is shown in that language.",
  [ENG, "src/DictionaryService.cpp", KH, "po/zh_TW.po", "po/en.po"], [("messages", ENG+" KeyHandlerLocalizedString, LanguageModelLoaderLocalizedStrings, toggles, character information"), ("menu entries", "src/DictionaryService.cpp textForMenu")], ["auxiliary text, candidate texts, action labels, notices, option descriptions, new user files"]),
P("C39", "The add-phrase hook records the phrase and never damages the user's files",
  "With the hook after adding a phrase switched on, every phrase added from the input method is committed in the git repository of the user's phrases, and sent to the remote when there is one and the two histories merge. "
  "The user's files never lose a line and never get text that neither the user nor another of the user's machines wrote, the repository is never left in the middle of an operation, and nothing in the phrase or its readings is run as a command. "
  "A missing repository, remote, identity or network, or two additions at once, does no harm.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every phrase and reading that can be marked, every state of the repository and its remote, and every overlap of two runs of the hook",
  "No test runs the hook; it is a script run by a child process against the user's own git repository.",
  ["data/add-phrase-hook.sh", KH, ENG], [("commit and push", "data/add-phrase-hook.sh"), ("running the hook after an addition", ENG+" / KeyHandler setOnAddNewPhrase")], ["the repository, the remote and the user's files after each run"]),
P("C40", "What the input method uses stays bounded however long it runs",
  "The input method runs for as long as the desktop session does. Doing the same thing again (typing, choosing, looking up, switching input methods, changing settings, replacing data files, opening and closing applications, being unloaded and loaded) "
  "does not take more memory, open files, mapped files or threads each time: whatever it takes for an action is given back or used again, also when the action fails because a file is missing, damaged or cannot be read.",
  ["histories", "fault_sequences", "configurations"],
  "every repeated sequence of framework events, setting changes and file changes, within one life of the engine or across reloads",
  "Unit tests end before a leak matters and none of them measures anything.",
  [ENG, "src/DictionaryService.cpp", "src/Engine/MemoryMappedFile.cpp", "src/LanguageModelLoader.cpp"],
  [("files mapped and closed", "src/Engine/MemoryMappedFile.cpp open/close/move"), ("configuration read", "src/DictionaryService.cpp load"), ("reloads", "src/LanguageModelLoader.cpp loadModelForMode/reloadUserModelsIfNeeded")],
  ["allocated bytes, open descriptors, mapped files and threads of the process before and after each repetition"]),
P("C41", "Each input method converts with its own installed data",
  "The smart input method works with the smart dictionary, the plain one with the plain dictionary, both with the installed associated phrases, macros and the user's own files, however often one is switched to the other. "
  "Each data file is taken from the first data directory that has it, the user's before the system's; one that is missing or damaged leaves the input method without that data but working, and one that is installed, updated or removed while in use is in force from the next start or switch and harms nothing before.",
  ["histories", "configurations", "fault_sequences"],
  "every arrangement of the three data files over the data directories, and every history of starts, switches and files installed, updated or removed",
  "Tests read one shipped file by a fixed path; none starts the loader or switches modes.",
  ["src/LanguageModelLoader.cpp", "src/Engine/McBopomofoLM.cpp", "src/Engine/ParselessLM.cpp", "src/Engine/AssociatedPhrasesV2.cpp"],
  [("data located", "src/LanguageModelLoader.cpp constructor/loadModelForMode"), ("data replaced", "src/Engine/McBopomofoLM.cpp loadLanguageModel/loadAssociatedPhrasesV2")],
  ["unigrams, readings of words and associated phrases answered by the loaded language model"]),
P("C42", "The same typing always gives the same result",
  "What is shown, delivered, offered, started and saved depends only on the keys and other events, the settings, the data and user files and the clock. "
  "It does not depend on memory that was never set, on where things happen to lie in memory, on what other program or process is running, or on an earlier life of the input method that has left nothing in its files: after a new start the same events give the same again.",
  ["histories", "configurations"],
  "every sequence of events, settings and files, repeated after a new start of the engine and in other processes, with any leftovers in memory",
  "A unit test that passes by luck passes; uninitialised values usually are what the author expected, on the author's machine.",
  [ENG, KH, "src/Engine/gramambular2/reading_grid.cpp", "src/Engine/Mandarin/Mandarin.h", "src/Engine/UserOverrideModel.cpp"],
  [("session state", KH), ("conversion", "src/Engine/gramambular2/reading_grid.cpp walk"), ("engine state", ENG)],
  ["panel, preedit, candidates, commits, started programs, notices, user files and configuration, after every event"]),
P("C43", "The locale changes nothing but the language of messages",
  "fcitx runs in the locale of the user's session. What is typed, converted, offered, ordered, marked, looked up, committed and saved is the same in every one of them: "
  "scores, dates, numbers, Pinyin letters, addresses and characters are read and written the same way whatever the locale's decimal sign, letters, character set, formats or collation are.",
  ["configurations", "histories"],
  "every locale the process may be started in (any language, single-byte, double-byte and UTF-8 character sets), for every sequence of events, settings and files",
  "The tests never call setlocale, so they run in the C locale, whatever the environment says.",
  ["src/Engine/ParselessLM.cpp", "src/Engine/AssociatedPhrasesV2.cpp", "src/Engine/Mandarin/Mandarin.h", "src/Engine/Mandarin/Mandarin.cpp", "src/DictionaryService.cpp", "src/InputMacro.cpp", KH, ENG],
  [("scores read", "src/Engine/ParselessPhraseDB.cpp ParseScore"), ("letters read", "src/Engine/Mandarin/Mandarin.h AsciiToLower"), ("address encoded", "src/DictionaryService.cpp urlEncode"), ("dates written", "src/InputMacro.cpp CreateLocale")],
  ["panel, preedit, candidates, commits, started programs, user files and configuration after every event; scores, spellings and macros, in processes started in different locales"]),
P("C44", "Long texts, big dictionaries and long sessions do not slow typing down",
  "What a key, a choice in a window or a lookup costs grows at most in proportion to the length of the composition and to the number of candidates there are, and not with the number of rows of the dictionary, "
  "the associated phrases, the user phrases, the excluded phrases or the replacements (beyond the steps of a search). Reading a file costs at most in proportion to its size. However much has been typed and chosen before, the same keys cost the same, "
  "and what a session remembers stays within a bound.",
  ["inputs", "histories", "configurations"],
  "every composition, dictionary, user file, text and session, of every length",
  "Tests use a handful of readings and tiny models and look at results only, never at what they cost.",
  [GRID, "src/Engine/ParselessPhraseDB.cpp", "src/Engine/McBopomofoLM.cpp", "src/Engine/UserPhrasesLM.cpp", "src/Engine/PhraseReplacementMap.cpp", "src/Engine/UserOverrideModel.cpp", "src/Engine/AssociatedPhrasesV2.cpp", "src/UTF8Helper.cpp", KH],
  [("rows found", "src/Engine/ParselessPhraseDB.cpp findFirstMatchingLine"), ("walk", GRID + " walk"), ("update", GRID + " update"), ("observations bounded", "src/Engine/UserOverrideModel.cpp observe")],
  ["executed edges and allocated bytes for every key, choice, file and text; heap in use after each part of a session"]),
P("C45", "What is installed fits together",
  "The dictionary, associated phrases, dictionary services and registrations in the repository work with the program as they are: every row of the dictionary is found, and every reading can be typed and offers just what the file has for it, best first, "
  "in each keyboard layout that can spell it; every punctuation key, letter, list and enclosed number in it is reached by the key it is named after; every associated phrase follows each beginning of it; "
  "every dictionary service opens its address with the word in it; and both input methods are found by fcitx under their names, languages and icons and type with that data.",
  ["inputs", "configurations"],
  "every row of the installed files, in every keyboard layout and width",
  "Tests use a few rows of their own; the stable ones never open the installed files.",
  ["data/data-plain-bpmf.txt", "data/associated-phrases-v2.txt", "data/dictionary_service.json", "src/mcbopomofo.conf.in.in", "src/mcbopomofo-plain.conf.in.in", "src/mcbopomofo-addon.conf.in.in", "src/Engine/ParselessPhraseDB.cpp", "src/Engine/ParselessLM.cpp", "src/Engine/AssociatedPhrasesV2.cpp", KH, ENG],
  [("keys of punctuation", KH + " handle"), ("rows", "data/data-plain-bpmf.txt"), ("phrases", "data/associated-phrases-v2.txt"), ("registration", "src/mcbopomofo.conf.in.in")],
  ["rows found, candidates offered and texts committed for every reading and key; fcitx's view of the registrations"]),
]

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(PROPS), "properties")
