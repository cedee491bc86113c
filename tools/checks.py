"""What each check runs. level: lib = src/Engine + src/ChineseNumbers only;
core = everything but the fcitx engine class; engine = everything."""
BINARIES = {
    "h_grid": {"level": "lib", "sources": ["h_grid.cpp"]},
    "h_text": {"level": "lib", "sources": ["h_text.cpp"]},
    "h_uom": {"level": "lib", "sources": ["h_uom.cpp"]},
    "h_mandarin": {"level": "lib", "sources": ["h_mandarin.cpp"]},
    "h_lm": {"level": "lib", "sources": ["h_lm.cpp"]},
    "h_files": {"level": "core", "sources": ["h_files.cpp"]},
    "h_macro": {"level": "core", "sources": ["h_macro.cpp"]},
    "h_service": {"level": "core", "sources": ["h_service.cpp"]},
    "h_hook": {"level": "lib", "sources": ["h_hook.cpp"]},
    "h_keyhandler": {"level": "core", "sources": ["h_keyhandler.cpp"]},
    "h_engine": {"level": "engine", "sources": ["h_engine.cpp"]},
    "h_data": {"level": "core", "sources": ["h_data.cpp"]},
    # for C44: counted edges, no sanitizers
    "h_cost": {"level": "core", "sources": ["h_cost.cpp"], "san": "", "flags": ["-fsanitize-coverage=trace-pc-guard"]},
    # for C42: the same without sanitizers, over memory with other leftovers
    "d_zero": {"level": "engine", "sources": ["h_engine.cpp"], "san": "", "flags": ["-ftrivial-auto-var-init=zero"], "env": {"MALLOC_PERTURB_": "255"}},
    "d_pattern": {"level": "engine", "sources": ["h_engine.cpp"], "san": "", "flags": ["-ftrivial-auto-var-init=pattern"], "env": {"MALLOC_PERTURB_": "85"}},
    "d_memcheck": {"level": "engine", "sources": ["h_engine.cpp"], "san": "", "flags": ["-O0"], "cases": 0.1, "env": {"VF_ONCE": "1"},
                   "wrap": ["valgrind", "-q", "--error-exitcode=88", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--track-origins=yes", "--leak-check=no", "--num-callers=16"]},
    # for C43: the same started in other locales (made by localedef in the build directory)
    "l_C": {"level": "engine", "sources": ["h_engine.cpp"], "san": "", "flags": ["-ftrivial-auto-var-init=zero"], "locale": "C.UTF-8"},
}
for _n, _l in (("de", "de_DE.UTF-8"), ("tr", "tr_TR.UTF-8"), ("tr9", "tr_TR.ISO-8859-9"), ("zh", "zh_TW.BIG5"), ("fa", "fa_IR.UTF-8")):
    BINARIES["l_" + _n] = dict(BINARIES["l_C"], locale=_l)
HIST = "Each case draws a random language model and a random history of operations from its seed; "
KEYS = "Each case draws a dictionary, settings and a history of keys, choices, cancellations and resets, weighted towards this property; distinct = different histories."
ENGINE = "Each case draws dictionaries, settings, one to three applications and a history of events delivered through a real fcitx 5 instance, "
FCITX = ["the installed fcitx 5 library delivers events as its user interfaces would"]
CHECKS = {
    "C01": {"run": ["h_grid"], "level": "exploration",
            "technique": "sanitized randomized histories, online optimality oracle (reference dynamic program)",
            "rule": HIST + "distinct = different histories or language models; every case has at least 20 operations and is non-trivial.",
            "expect": {"conversions_checked": 1000}},
    "C02": {"run": ["h_grid"], "level": "exploration",
            "technique": "sanitized randomized edit histories, online monitor comparing every state with a rebuild from scratch",
            "rule": HIST + "distinct = different histories or language models.",
            "expect": {"states_checked": 1000}},
    "C03": {"run": ["h_grid"], "level": "exploration",
            "technique": "sanitized randomized histories, candidate lists compared with a direct enumeration of the language model",
            "rule": HIST + "distinct = different histories or language models.",
            "expect": {"candidate_lists_checked": 1000}},
    "C04": {"run": ["h_grid"], "level": "exploration",
            "technique": "sanitized randomized histories, monitor holding the set of choices in force",
            "rule": HIST + "distinct = different histories or language models; all have candidate choices interleaved with edits.",
            "expect": {"choices": 1000}},
    "C05": {"run": ["h_lm"], "level": "exploration",
            "technique": "sanitized randomized tables in exact-size heap buffers, lookups compared with a linear scan",
            "rule": "Each case draws a sorted table (0 to 1200 rows, keys that are prefixes of each other, with and without header and final newline) and looks up present, absent, prefix, extended and out-of-range keys; case 0 looks up every key of the shipped table. distinct = different tables.",
            "expect": {"present_lookups": 1000, "absent_lookups": 1000}},
    "C06": {"run": ["h_lm"], "level": "exploration",
            "technique": "sanitized randomized tables in exact-size heap buffers, reverse lookups compared with a linear scan",
            "rule": "As C05, asking for readings of present, absent, longer and shorter values; distinct = different tables.",
            "expect": {"present_values": 1000, "absent_values": 1000}},
    "C07": {"run": ["h_lm"], "level": "exploration",
            "technique": "sanitized randomized data and settings, reference pipeline as oracle",
            "rule": "Each case draws dictionary, user phrases, exclusions, replacements, converter and macro settings, and compares the offers of 10 readings before and after switching settings; distinct = different data and settings.",
            "expect": {"unigram_lists": 1000, "boosted_user_phrases": 50, "not_text": 1000}},
    "C08": {"run": ["h_lm"], "level": "exploration",
            "technique": "sanitized randomized data and settings, consistency monitor between three observers of the same reading",
            "rule": "As C07, biased towards readings with everything excluded or only unsupported macros; distinct = different data and settings.",
            "expect": {"known": 1000, "unknown": 1000, "conversions": 500}},
    "C09": {"run": ["h_lm"], "level": "exploration",
            "technique": "sanitized randomized tables, queries compared with a linear scan and ranking rules",
            "rule": "Each case draws a sorted table of associated phrases and asks 25 prefixes (matching, mismatched, of unequal length); case 0 asks the shipped table. distinct = different tables.",
            "expect": {"queries_with_result": 1000, "queries_without_result": 500}},
    "C10": {"run": ["h_lm"], "level": "exploration",
            "technique": "sanitized fuzzing of file contents with a line-based reference reader as oracle",
            "rule": "Each case draws a file content from well-formed and malformed pieces or random bytes and reads it from an exact-size buffer and from a mapped file; distinct = different contents.",
            "expect": {"pairs": 1000, "files_with_error": 100, "files_opened": 100}},
    "C11": {"run": ["h_lm"], "level": "fault_enumeration",
            "technique": "sanitized randomized open/close/move histories over ten kinds of path, monitor tracking the file in force",
            "rule": "Each case draws a history of opens, closes and moves over good, empty, missing, directory, header-less, truncated and device paths; distinct = different histories.",
            "expect": {"opens": 1000}},
    "C12": {"run": ["h_uom", "h_keyhandler"], "level": "exploration",
            "technique": "sanitized randomized observation histories with simulated time, reference frequency/decay model as online oracle",
            "rule": "Each case draws a history of observations and suggestions over few contexts, directly, through conversions of random compositions, or by typing and choosing through the key handler, with capacities from 1 to 500 and simulated time; distinct = different histories.",
            "expect": {"suggested": 1000, "competing_suggestions": 500, "decayed": 100, "observed_in_conversion": 500, "suggestions_taken": 500}},
    "C13": {"run": ["h_text"], "level": "exploration",
            "technique": "sanitized exhaustive short and random long byte strings, reference decoder as oracle",
            "rule": "Cases 0-255 take every first byte with every second byte and edge bytes after; the others draw texts from valid, truncated and ill-formed sequences. distinct = different texts (or first bytes).",
            "expect": {"valid_texts": 1000, "invalid_texts": 1000}},
    "C14": {"run": ["h_text"], "level": "exploration",
            "technique": "sanitized exhaustive small and random large numbers, numerals parsed back by an independent reader",
            "rule": "Cases 0-99 take all integers below 20000; the others 20 random digit strings each (up to 48 digits, any density of zeros, with decimals). distinct = different numbers.",
            "expect": {"numerals": 1000}},
    "C15": {"run": ["h_text"], "level": "exploration",
            "technique": "sanitized exhaustive small and random large numbers, independent reference notation as oracle",
            "rule": "As C14 up to 32 digits, both initial orientations, with units; distinct = different numbers.",
            "expect": {"numerals": 1000}},
    "C16": {"run": ["h_mandarin"], "level": "exploration",
            "technique": "sanitized exhaustive syllables and fuzzed texts, independent symbol, key and spelling tables as oracle",
            "rule": "Cases 0-21 take all 6160 component combinations, case 22 all shipped readings; the others draw sums of syllables and 60 texts each in buffers of their exact size. distinct = different syllables or texts.",
            "expect": {"syllables": 6160, "real_syllables": 1000, "texts_read": 10000, "pinyin_spellings": 2000}},
    "C17": {"run": ["h_mandarin"], "level": "exploration",
            "technique": "sanitized randomized key histories with layout changes, reference reading model as online oracle",
            "rule": "Each case draws 30 to 90 keys, backspaces, clears, whole syllables and layout changes; distinct = different histories.",
            "expect": {"keys_taken": 10000, "keys_refused": 1000, "left_pinyin": 200, "tone_removed": 50}},
    "C18": {"run": ["h_keyhandler"], "level": "exploration",
            "technique": "sanitized randomized key histories over random dictionaries, reference key-handling model as online oracle",
            "rule": KEYS,
            "expect": {"keys": 10000}},
    "C19": {"run": ["h_keyhandler"], "level": "exploration",
            "technique": "sanitized randomized key histories over random dictionaries, reference key-handling model as online oracle",
            "rule": KEYS,
            "expect": {"keys": 10000}},
    "C20": {"run": ["h_keyhandler"], "level": "exploration",
            "technique": "sanitized randomized key histories over random dictionaries, reference key-handling model as online oracle",
            "rule": KEYS,
            "expect": {"keys": 10000}},
    "C21": {"run": ["h_keyhandler"], "level": "exploration",
            "technique": "sanitized randomized key histories over random dictionaries, reference key-handling model as online oracle",
            "rule": KEYS,
            "expect": {"keys": 10000}},
    "C22": {"run": ["h_keyhandler"], "level": "exploration",
            "technique": "sanitized randomized key histories over random dictionaries, reference key-handling model as online oracle",
            "rule": KEYS,
            "expect": {"keys": 10000}},
    "C23": {"run": ["h_keyhandler"], "level": "exploration",
            "technique": "sanitized randomized key histories over random dictionaries, reference key-handling model as online oracle",
            "rule": KEYS,
            "expect": {"keys": 10000}},
    "C24": {"run": ["h_keyhandler"], "level": "exploration",
            "technique": "sanitized randomized key histories over random dictionaries, reference key-handling model as online oracle",
            "rule": KEYS,
            "expect": {"keys": 10000}},
    "C25": {"run": ["h_keyhandler"], "level": "exploration",
            "technique": "sanitized randomized key histories over random dictionaries, reference key-handling model as online oracle",
            "rule": KEYS,
            "expect": {"keys": 10000}},
    "C26": {"run": ["h_keyhandler"], "level": "exploration",
            "technique": "sanitized randomized key histories over random dictionaries, reference key-handling model as online oracle",
            "rule": KEYS,
            "expect": {"keys": 10000}},
    "C27": {"run": ["h_keyhandler"], "level": "exploration",
            "technique": "sanitized randomized key histories over random dictionaries, reference key-handling model as online oracle",
            "rule": KEYS,
            "expect": {"keys": 10000}},
    "C28": {"run": ["h_keyhandler"], "level": "exploration",
            "technique": "address, undefined-behaviour and library-assertion sanitizers under randomized histories with hostile data",
            "rule": "Each case draws a dictionary (normal, missing, empty or malformed), user data, and a history of keys with any modifiers, choices, cancellations, resets, setting changes and reloads in the middle of compositions; distinct = different histories.",
            "expect": {"keys": 50000, "settings_changed": 1000, "data_loaded": 5000, "choices": 1000}},
    "C29": {"run": ["h_files"], "level": "fault_enumeration",
            "technique": "sanitized randomized histories of additions, edits, restarts and injected file-system faults; file bytes and answers compared with a reference reader",
            "rule": "Each case draws what exists beforehand and a history of additions, hand edits, mode switches, restarts and six kinds of fault (partial write, read-only, missing, directory, full device, missing directory); distinct = different histories.",
            "expect": {"added": 1000, "added_after_open_line": 100, "faults": 500, "restarts": 500, "created": 100}},
    "C30": {"run": ["h_files", "h_engine"], "level": "exploration",
            "technique": "sanitized randomized histories of file changes with chosen time stamps, answers before and after each use compared with a reference reader",
            "rule": "Three of four cases draw a history of in-place edits, replacements, touches, removals, restorations and unnoticeable changes with uses between them; the fourth asks change detection about 13 kinds of path. The engine's cases edit the three files between activations in either mode and type. distinct = different histories.",
            "expect": {"uses": 1000, "answers_before_use": 1000, "edited_in_place": 500, "restored": 50, "no_reload_seen": 100, "different": 1000, "not_different": 1000, "files_edited": 5000, "files_edited_plain": 1000}},
    "C32": {"run": ["h_service"], "level": "fault_enumeration",
            "technique": "sanitized randomized and malformed configurations, started programs recorded and addresses decoded by an independent reader",
            "rule": "Each case draws a configuration file (valid, with invalid entries, cut short, malformed, missing) and looks up 4 words in every service and beyond; distinct = different configurations.",
            "expect": {"lookups": 10000, "builtin_lookups": 5000, "out_of_range": 5000, "invalid_entries": 1000, "no_marker": 500}},
    "C33": {"run": ["h_macro"], "level": "exploration",
            "technique": "sanitized runs under a simulated clock and time zone, expansions compared with independent calendar arithmetic",
            "rule": "Each case draws 6 moments (biased towards day, month, year, leap-day, era and clock-change boundaries, 1900 to 2200, 15 time zones) and expands all 49 macros and 12 texts that are none; distinct = different moments.",
            "assumptions": ["lunar dates, time zone offsets and time zone names are as ICU computes them for a given day"],
            "expect": {"expansions": 50000, "not_macros": 5000, "offered": 3000, "menu_entries": 10000}},
    "C34": {"run": ["h_engine"], "level": "exploration",
            "technique": "sanitized randomized fcitx event histories through a real fcitx instance, reference engine model as online oracle",
            "rule": ENGINE + "weighted towards focus changes, resets, input method switches, several applications in use at a time and applications that quit; distinct = different histories.",
            "assumptions": FCITX,
            "expect": {"compositions_shown": 100000, "commits": 10000, "focus_changes": 5000, "left_while_composing": 1000, "used_without_focus_change": 50, "taken_over": 50, "ended_while_composing": 20, "resets": 500, "switches": 500}},
    "C35": {"run": ["h_engine"], "level": "exploration",
            "technique": "sanitized randomized fcitx event histories through a real fcitx instance, shown windows and picks compared with a reference engine model",
            "rule": ENGINE + "weighted towards candidate windows and menus of every kind, with keys, clicks, paging by keys and by the user interface; distinct = different histories.",
            "assumptions": FCITX,
            "expect": {"windows_compared": 30000, "windows_with_pages": 5000, "picked": 5000, "pages_turned": 1000, "highlight_moved": 5000, "clicks": 1000, "ui_paging": 100, "actions_without_highlight": 100, "looked_up": 300, "associated_of_later": 200}},
    "C36": {"run": ["h_engine"], "level": "exploration",
            "technique": "sanitized randomized fcitx event histories through a real fcitx instance, independent key and option tables as oracle",
            "rule": ENGINE + "weighted towards every physical key with every modifier, configuration changes by setting, by file and by menu, and restarts; distinct = different histories.",
            "assumptions": FCITX,
            "expect": {"configured": 1000, "toggled": 1000, "restarts": 200, "passed_on": 10000, "configurations_compared": 4000, "files_opened": 500, "keys": 50000}},
    "C37": {"run": ["h_engine"], "level": "exploration",
            "technique": "sanitized fuzzing of fcitx events, settings and files through a real fcitx instance, with AddressSanitizer, UBSan, libstdc++ assertions and text validity monitors",
            "rule": "Each case delivers 60 to 180 events drawn from keys with any symbol and modifiers, releases, clicks, paging, focus changes, resets, contexts created and destroyed, input method switches, capability changes, settings (valid, invalid, garbage files), menu actions and files replaced under the engine, sound or damaged; distinct = different histories.",
            "assumptions": FCITX,
            "expect": {"keys": 100000, "clicks": 500, "ui_paging": 500, "contexts": 1000, "destroyed": 500, "settings": 500, "switches": 1000, "actions": 500, "system_files_changed": 300, "user_files_changed": 300, "windows": 20000}},
    "C38": {"run": ["h_engine", "h_keyhandler"], "level": "exploration", "workers": 8,
            "technique": "sanitized randomized fcitx event histories in each shipped language and a made-up one whose messages can be told apart, texts judged against the state of an independent second key handler; that key handler's hints judged by a reference key-handling model",
            "rule": ENGINE + "weighted towards marking, moving, menus, toggles and restarts without user files, with the messages untranslated, in brackets and from each catalog in po/; distinct = different histories.",
            "assumptions": FCITX,
            "expect": {"hints_PRESS": 2000, "hints_EXISTS": 50, "hints_REQUIRED": 2000, "hints_MAXIMUM": 800, "hints_between": 50, "notices": 2000, "headers": 1500, "dictionary_menus": 500, "character_informations": 500, "option_lists": 1500, "texts_zh_TW": 15000, "texts_en": 15000, "texts_brackets": 15000}},
    "C39": {"run": ["h_hook"], "level": "fault_enumeration",
            "technique": "the script runs in randomized histories of additions, other machines and missing remotes; files, repository and remote inspected after each run",
            "rule": "Each case draws a state of the user's repository and a history of additions (any characters), additions by another machine, an unreachable remote, a missing identity and two scripts at once; distinct = different histories.",
            "assumptions": ["git works as documented"],
            "expect": {"scripts_run": 300, "committed": 200, "pushed": 50, "merged": 5, "diverged": 10, "two_at_once": 20, "other_machine": 30}},
    "C40": {"run": ["h_engine"], "level": "exploration",
            "technique": "the same randomized fcitx events repeated through a real fcitx instance, allocated bytes (AddressSanitizer), open files, mapped files and threads observed around each repetition",
            "rule": "Each case draws dictionaries, settings and 30 to 80 events of every kind (as C37) and does the same up to ten times, within one life of the engine or with a new one each time; distinct = different histories.",
            "assumptions": FCITX,
            "expect": {"cycles": 700, "cycles_without_any_growth": 500, "events": 50000, "faults": 200, "restarts": 500, "settings": 1000, "user_files_changed": 1000, "system_files_changed": 1000, "destroyed": 500}},
    "C41": {"run": ["h_files"], "level": "exploration",
            "technique": "sanitized randomized histories of installed data files and mode switches through the real loader, answers compared with an independent reading of the file that should be in force",
            "rule": "Each case draws which of three data directories have which of the three data files (good, empty, only a header, a directory in its place, none) and a history of starts, mode switches and files installed, updated or removed while in use; distinct = different histories.",
            "assumptions": ["fcitx looks for a data file in the user's directory first, then in the system's in their order"],
            "expect": {"compared": 5000, "offers": 50000, "mode_with_data": 1000, "mode_without_data": 500, "installed": 2000, "associated": 5000, "macros": 200, "from_directory_1": 100, "from_directory_2": 100, "from_directory_3": 50, "from_directory_0": 20, "words_known": 5000}},
    "C42": {"run": ["d_zero", "d_pattern", "d_memcheck"], "compare": True, "level": "exploration",
            "technique": "randomized fcitx event histories repeated, in builds with different leftovers in memory, and under valgrind memcheck; everything observable recorded and compared",
            "rule": "Each case draws dictionaries, settings and 60 to 180 events of every kind (as C37); it is run twice in a process, in processes whose uninitialised stack and heap memory has different contents, and a part of the cases under memcheck; distinct = different histories.",
            "assumptions": FCITX,
            "expect": {"repeated": 2000, "results": 500000, "keys": 200000, "compared": 1500, "under_memcheck": 20}},
    "C43": {"run": ["l_C", "l_de", "l_tr", "l_tr9", "l_zh", "l_fa"], "compare": True, "level": "exploration",
            "technique": "randomized fcitx event histories in processes started in six locales (decimal commas, single-byte and double-byte character sets, Turkish letters); everything observable recorded and compared",
            "rule": "Each case draws dictionaries, settings and 60 to 180 events of every kind (as C37), asks for every score, 30 spellings and 49 macros, and is run in each locale; distinct = different histories.",
            "assumptions": FCITX,
            "expect": {"results": 500000, "keys": 200000, "compared": 2000, "scores": 50000, "spellings": 50000}},
    "C44": {"run": ["h_cost"], "level": "exploration",
            "technique": "instrumented work counter (executed edges and allocated bytes) over paired executions: the same keys at the same place of a composition eight times as long, with dictionaries a hundred times as big, eight times the candidates, sixteen times the answers to a lookup, and after hundreds of rounds",
            "rule": "Each case draws a dictionary, settings and a history of keys and runs it twice, the second time with more of one thing, comparing the work of every step; or repeats one history and compares work and memory at the ends. Distinct = different histories, file kinds or texts.",
            "assumptions": ["work is counted in executed edges of the repository's code and templates and in bytes allocated; the C library's own loops are not counted"],
            "expect": {"steps_measured": 3000, "long_compositions": 25, "big_dictionaries": 25, "many_candidates": 25, "files_read": 25, "texts": 25, "session_rounds": 10000, "fresh_sessions": 25, "searches": 25, "many_answers": 25}},
    "C45": {"run": ["h_data", "h_engine"], "level": "exploration",
            "technique": "sanitized execution of the real loaders and key handler over every row of the installed files; oracle: the files read independently",
            "rule": "The rows are divided among the cases; each reading is looked up and typed in every layout, each key pressed in every layout and width, each prefix of each associated phrase looked up. Distinct = different readings, keys and prefixes.",
            "expect": {"readings": 1500, "rows": 10000, "readings_typed": 7000, "punctuation_typed": 300, "associated_found": 50000, "phrases_chosen": 500, "services_opened": 50, "numbers_typed": 20, "letters_typed": 20, "lists_opened": 1, "typed_as_installed": 400}},
}
