#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os, pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent
INPUTS, HISTORIES = "inputs", "histories"
P = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, bounds, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files,
                  mechanism=mechanism, bounds=bounds, note=note))


DEC = "src/decompose/mod.rs"
MORPH = "src/rules.rs"
LEX = "src/lex/mod.rs"
SEL = "src/lex/selmaho/"
CST = "src/parse/cst/rules/mod.rs"
CON = "src/parse/cst/rules/connectives.rs"
HELP = "src/parse/cst/rules/helpers.rs"
MACRO = "macros/src/"
NODE = "src/parse/tree_node.rs"
ERR = "src/parse/cst/error.rs"
SPAN = "src/span.rs"
FEW = "The tests are a few hundred hand-picked words and sentences, each compared with one expected result; "

prop("C01", "Every text is processed to a normal end",
     "For every text, decomposing it, lexing it, classifying its words and parsing its tokens each come to an end with a "
     "value or a reported error: no panic, no endless loop, no abnormal end of the process. The same holds for parsing "
     "any sequence of tokens, of any word classes in any order.",
     [INPUTS], "every text (any Unicode string) and every token sequence",
     FEW + "none is a stranger to the grammar (unusual characters, tokens in senseless order, deep nesting).",
     [DEC, MORPH, LEX, SEL, CST, HELP], [("arithmetic on locations and indices", DEC), ("fixed-size buffers of the classifier", SEL),
      ("repetition combinators that must consume input", HELP)],
     "all pairs of 251 word classes (triples of the 125 of the grammar in thorough), derivations of every rule and all sequences at "
     "distance one, every word class and pair of classes nested up to 64/24 deep, all strings of 3 letters, all strings of unusual "
     "characters, repeated letters and words, parts of every length up to 70 (200) and some beyond, every kind of character (every character there is) within a text",
     "Bounded exhaustive; nothing but normal termination is judged. Deep nesting and very long words are known findings.")

prop("C02", "The words of a text tile its letters",
     "Decomposing any text yields nonempty regions of it, in order and without overlap, on character boundaries. Every "
     "character that is neither a separator (space, tab, newline, carriage return, dot, question or exclamation mark) nor a comma belongs to exactly "
     "one word, and no word contains a separator or consists of commas only.",
     [INPUTS], "every text",
     FEW + "that no letter is lost or counted twice must hold for every text, also those that are not Lojban.",
     [DEC, MORPH], [("the loop that cuts chunks and words", DEC)],
     "all strings of 3 (4) of 25 letters, 4 (6) of 13, all sequences of 3 (4) of 32 syllables and rafsi, 106 patterns with all "
     "consonants, all single changes of known words, all sequences of 5 (6) chunks and separators, unusual characters, every kind of character (every character there is) within a text",
     "Bounded exhaustive exploration of the real decomposer; the oracle is the invariant itself, no model is trusted.")

prop("C03", "Separators are interchangeable and only separate",
     "The words of a text are the words of its separator-free parts, each decomposed on its own; besides commas, nothing but "
     "separators lies between words. Replacing separators by "
     "other separators leaves all words and their places as they are; repeating separators, or adding them at the start "
     "and end, changes no word.",
     [INPUTS], "every text, every choice of separators",
     FEW + "nearly all of them with single spaces; the relation is between pairs of texts.",
     [DEC, MORPH], [("the set of separators", DEC), ("chunks are decomposed one at a time", DEC)],
     "all strings of 3 letters, all sequences of 5 (6) chunks and separators, all example texts, unusual characters, every kind of character (every character there is) within a text; each against its "
     "parts and with each of the separators everywhere",
     "Metamorphic: the library is compared with itself on related inputs; no model is trusted.")

prop("C04", "Commas and the spelling of the apostrophe do not matter",
     "Leaving out the commas of a text, or writing h for an apostrophe (or the reverse), changes neither how its letters "
     "are grouped into words nor the word class (and experimental mark) of any word.",
     [INPUTS], "every text and every way to place commas and to write apostrophes in it",
     FEW + "only a handful contains a comma or an h.",
     [DEC, MORPH, SEL], [("commas are skipped by every rule of the morphology", MORPH), ("the classifier drops commas and maps h", SEL)],
     "commas in all subsets of the places of short words and up to two anywhere in longer ones, h and ' in all combinations in "
     "all words with apostrophes, all strings of 3 (4) letters, listed words within compounds, every kind of character (every character there is) within a text",
     "Metamorphic: the library is compared with itself; no model is trusted.")

prop("C05", "Word boundaries follow the Lojban morphology",
     "Every text is cut into words exactly where the morphology says: each separator-free part is split, from left to right, "
     "into the cmavo, brivla and cmevla that the PEG of Lojban morphology finds there (including the tosmabru and slinku'i "
     "rules, stress marks by capitals, runs of digits, and y); what is no Lojban word at all is a word of its own up "
     "to the next separator.",
     [INPUTS], "every text",
     FEW + "whether a boundary moves depends on the combination of consonants, vowels, stress and commas on both sides.",
     [DEC, MORPH], [("rules of the morphology", MORPH), ("choice of the next word", DEC)],
     "all strings of 4 (5) letters, 4 (6) of 13, 6 (7) of vowels, sequences of 3 (4) of 32 syllables and rafsi, 106 patterns with "
     "all consonants, stress in all subsets of vowels, commas, single changes of known words, listed words in compounds, every kind of character (every character there is) within a text",
     "The reference is an interpreter of a PEG of the morphology written out as data (models/morphology.peg), compared on every input. Trusted: that PEG.")

prop("C06", "Every word has the class that its form gives it",
     "The class of a word is determined by its form: cmevla end in a consonant, gismu, lujvo and fu'ivla are told apart by "
     "the morphology, cmavo have the class of the listed word (unlisted ones are unknown cmavo and experimental), a digit "
     "is a number word, a run of y is the hesitation, and anything else is foreign text. This holds for every word of every text, "
     "however it is spelled (commas, h, capitals) and whatever stands next to it.",
     [INPUTS], "every word that can be part of a text",
     FEW + "the classes of word forms not in the tests are open.",
     [SEL, MORPH], [("classification in the order cmavo, gismu, fu'ivla, lujvo, cmevla", SEL + "mod.rs"), ("rules for the word forms", MORPH)],
     "every word of the texts of C05's kind of space, and all words shaped like cmavo with up to two nuclei; every kind of character (every character there is) as and within a word",
     "Compared with the reference morphology and the dictionary (models/morphology.peg, models/dict.tsv). Trusted: those.")

prop("C07", "Exactly the listed cmavo are known, with their classes",
     "Each of the listed cmavo is recognized, in every spelling (with commas, with h for the apostrophe), with the right word class and the right experimental mark. No other "
     "cmavo-shaped word, capitalized ones included, gets the class of a listed one: it is an unknown cmavo.",
     [INPUTS], "all 1361 listed words in all spellings, and every word that is shaped like a cmavo",
     "The tests look up about a dozen of the 1361 entries.",
     [SEL + "classify.rs", SEL + "mod.rs"], [("table of cmavo", SEL), ("normalization before the lookup", SEL)],
     "every listed word in all spellings of its apostrophes and with commas anywhere, everything that differs from a short listed "
     "word in one letter, all 20 x (12 + 12^2 + 12^3) words shaped like cmavo, listed words followed by 10 (133) short ones, every kind of character (every character there is) within a listed word",
     "Complete over the dictionary (models/dict.tsv, taken from the repository's own table and checked against the official lists where they overlap). Trusted: the dictionary.")

prop("C08", "Raw and decomposing steps can be mixed freely",
     "Reading a text word by word and reading it raw (up to the next separator, without decomposition) can be mixed in any "
     "order: a raw step returns exactly the rest of the current separator-free part, or the whole next one; a decomposing step "
     "continues right after what was read before, as the decomposition of the rest of that part. No history of steps loses, repeats or "
     "reorders text.",
     [HISTORIES, INPUTS], "every text and every sequence of the two kinds of steps",
     "The tests contain no history that mixes the two, apart from the few quotations that the lexer reads.",
     [DEC], [("state of the decomposer between steps", DEC)],
     "all texts of up to 4 (5) of 8 parts with all histories of up to 6 (7) steps, and all known words in 5 surroundings with all "
     "histories of 4 (6) steps",
     "Explicit-state exploration of the real iterator against a reference cursor; the remaining words are compared after every history.")

prop("C09", "The iterators keep their promises",
     "In every state that the iterators over words and tokens can reach, the size hint is a true bound on what follows, copies "
     "yield the same rest as the original and do not disturb it, and all ways to consume the rest agree. After the end, nothing is "
     "yielded any more, however often one asks.",
     [HISTORIES, INPUTS], "every text and every history of calls",
     "No test looks at size hints, copies, or calls after the end.",
     [DEC, LEX], [("size_hint", DEC), ("final state", LEX), ("clones share nothing", DEC)],
     "all texts of up to 3 (5) parts with all histories of up to 3 (5) calls, known words, quotations, unusual characters, every kind of character (every character there is) within a text",
     "Invariants checked in every state of the real iterators.")

prop("C10", "Foreign quotations are cut out exactly",
     "After a word of the classes that quote foreign text, the quoted text is taken verbatim: with a delimiter (ZOI, MUhOI, and SOhEhAI with "
     "two quotes that share the middle one), from after the delimiter to before the next separator-bounded occurrence of the same "
     "delimiter word, commas ignored; without one (MEhOI, ZOhOI, DOhOI), up to the next separator. Decomposition goes on "
     "right behind the quotation, words inside of it have no effect, and everything after the end-of-text word (FAhO) is ignored.",
     [INPUTS], "every text with quotations, every delimiter and quoted content",
     FEW + "a dozen with foreign quotations.",
     [LEX, DEC], [("states of the lexer", LEX)],
     "18 quoting contexts x 12 delimiters x all bodies of up to 2 (3) of 16 parts x 5 tails, all sequences of 6 (7) of 9 parts of "
     "quotations, every known word as delimiter, every listed word before others, quoted parts of every length up to 70 (200) and some beyond, every kind of character (every character there is) in delimiters and quoted text",
     "Every token (class, mark, place) compared with a reference lexer.")

prop("C11", "Unfinished quotations are reported, and nothing follows",
     "Lexing fails exactly when a foreign quotation has no delimiter, is not closed, or has nothing to quote; the error "
     "says which, and points at the word that began the quotation and at its delimiter. Nothing is yielded after an error, after "
     "the end of the text or after the end-of-text word, and the tokens before an error are the same as without it.",
     [INPUTS, HISTORIES], "every text, in particular every beginning of a text with quotations",
     "The documentation has one example per error.",
     [LEX], [("error exits of the lexer", LEX)],
     "the quotation spaces of C10, one level shallower",
     "Final outcome and number of tokens compared with a reference lexer; calls after the end are made.")

prop("C12", "Outside of quotations, tokens are the classified words",
     "Up to the first foreign quotation or end-of-text word, the tokens of a text are its decomposed words, one for one and at the same "
     "places, with the class and mark that classifying the word on its own gives. All tokens are regions of the text, in order and without "
     "overlap.",
     [INPUTS], "every text",
     FEW + "the two iterators are never compared on the same text.",
     [LEX, DEC, SEL], [("the lexer classifies each word by itself", LEX)],
     "all sequences of 4 (5) chunks and separators, quotations, strings of letters and syllables, compounds, every kind of character (every character there is) within a text",
     "The library is compared with itself; no model is trusted.")

prop("C13", "Word classes have distinct, fixed names",
     "Each word class has one written name, the conventional one (a capital for every letter except h for the apostrophe), the same "
     "in every way to print it; different classes are unequal and have different names. A token shows as a tree node with the name of its "
     "class, its own experimental mark and its own place, and whether a class is experimental as a whole is as listed.",
     [INPUTS], "all 251 word classes",
     "The tests print a few of the 251 classes.",
     [SEL + "display.rs", SEL + "mod.rs", NODE], [("table of names", SEL + "display.rs")],
     "all 251 classes, compared with each other",
     "Complete enumeration of a finite space, against a list of names.")

prop("C14", "The leaves of a tree are the tokens",
     "The leaves of the syntax tree of an accepted token sequence are its tokens: all of them, once each, in order, at their places and with their classes and "
     "marks. Nothing that was read is dropped from the tree or shown twice, and empty parts contribute nothing.",
     [INPUTS], "every accepted token sequence",
     FEW + "each looks at the part of the tree it is about.",
     [CST, CON, HELP, MACRO, NODE], [("children of derived nodes", MACRO), ("children of containers and helpers", NODE)],
     "all pairs of 251 classes (triples of the grammar's 125), derivations of all 209 rules with up to 2 (3) deviations, all single changes of "
     "the shortest ones, 4 (5) of 8 classes for 66 small alphabets, every list of the grammar with 2, 3, 70 and 300 (up to 1100) elements, 2, 3 and 70 (300) words like BAhE or UI at every place of derivations, all example texts",
     "Invariant on the real tree; no model is trusted.")

prop("C15", "Extents and experimental marks follow from the leaves",
     "Every node of a syntax tree extends from the start of its first leaf to the end of its last one, and has no place if it has no leaves. A node is "
     "marked experimental exactly if one of its leaves is.",
     [INPUTS], "every accepted token sequence, every choice of which words are experimental",
     "No test looks at the places or marks of inner nodes, in particular next to absent parts.",
     [MACRO, NODE, CST, HELP], [("extents of derived nodes, options, lists and tuples", NODE), ("derive macro", MACRO)],
     "the spaces of C14, one level shallower, times all subsets of experimental words up to 5 (8) tokens and all single ones beyond",
     "Invariant on the real tree; no model is trusted.")

prop("C16", "Exactly the grammatical texts are accepted",
     "A token sequence is accepted if and only if it is a text of the grammar: every grammatical sequence gets a tree that covers all of it, and no other sequence is "
     "accepted. Terminators may be left out wherever the grammar lets them, and only there.",
     [INPUTS], "every token sequence",
     FEW + "nearly all of them accepted ones; what must be rejected is hardly tested.",
     [CST, CON, HELP, MACRO], [("ordered choice with rules in the order of the grammar", CST), ("everything must be consumed", "src/parse/cst/mod.rs")],
     "the spaces of C14",
     "Acceptance compared with an independent interpreter of the grammar written out as data (models/grammar.txt). Trusted: that grammar.")

AREAS = [
    ("C17", "Sumti are grouped as the grammar says", "SUMTI",
     "In every accepted token sequence, the parts of sumti are grouped as the grammar says: quantifiers, gadri with their selbri, relative clauses and terminators; "
     "names with LA; modified sumti (LAhE, NAhE BO); the order of binding of sumti connectives, BO and KE groups; VUhO; tags and FA with their sumti; termsets; and "
     "which words belong to which sumti when terminators are left out.",
     "sumti, gadri, relative clauses, connected sumti, terms and termsets"),
    ("C18", "Selbri and tanru are grouped as the grammar says", "SELBRI",
     "In every accepted token sequence, the parts of selbri are grouped as the grammar says: tanru to the left, BO to the right and tighter, KE groups, CO loosest, "
     "connected and forethought-connected units, SE/NAhE/JAI conversions, linked sumti (BE/BEI), abstractions, ME, MOI, GOhA, NUhA, CEI, ZEI compounds, and tags or NA before a selbri; "
     "also when terminators are left out.",
     "selbri, tanru units, conversions, linked sumti, abstractions"),
    ("C19", "Tags and tenses are grouped as the grammar says", "TAGS",
     "In every accepted token sequence, tags are grouped as the grammar says: time and space offsets, intervals, properties and motions in their order, aspect and CAhA, "
     "modal tags with SE/NAhE/NAI and KI, FIhO tags, CUhE, connected tags; and whether a tag belongs to a sumti, to a selbri or to a connective.",
     "tense, modal and other tags"),
    ("C20", "Numbers, lerfu and mekso are grouped as the grammar says", "MEKSO",
     "In every accepted token sequence, numbers, letter strings and mathematical expressions are grouped as the grammar says: precedence with BIhE, forethought and reverse Polish notation, parentheses, "
     "operands and operators made from other words, their connectives, subscripts, and whether a number is a quantifier, part of a MOI or MAI word or a sumti with LI.",
     "numbers, lerfu, mekso operands and operators, subscripts"),
    ("C21", "Connectives are grouped as the grammar says", "CONNECTIVES",
     "In every accepted token sequence, connectives of every kind (logical and nonlogical, afterthought and forethought, with NA, SE and NAI, intervals with GAhO, with tags, BO or KE) connect what the "
     "grammar says they connect, for sumti, selbri, bridi tails, sentences, operands, operators, tags and termsets, with the right order of binding.",
     "connectives between all kinds of constructs"),
    ("C22", "Free modifiers and indicators attach where the grammar says", "FREE",
     "In every accepted token sequence, free modifiers (vocatives, SEI, SOI, parentheses, subscripts, MAI), indicators, BAhE, BU and ZEI attach to the word or construct that the grammar "
     "says, wherever they appear, and are themselves grouped as the grammar says.",
     "free modifiers, indicators, BAhE, BU and ZEI"),
    ("C23", "Texts, sentences and fragments are grouped as the grammar says", "TEXT",
     "In every accepted token sequence, the text is divided into paragraphs, sentences, prenexes, terms, bridi tails and fragments as the grammar says: NIhO, I with and without connectives and tags, TUhE groups, "
     "GIhA with KE and BO, CU and VAU, forethought sentences, what may begin a text, and FAhO.",
     "paragraphs, sentences, bridi tails, prenexes, fragments"),
    ("C24", "Quotations are grouped as the grammar says", "QUOTES",
     "In every accepted token sequence, LU quotations contain a text, LOhU quotations everything up to the first LEhU, ZO exactly one word, and foreign quotations their delimiters and text (which may be empty); the words "
     "inside have no other effect, and the quotation is a sumti like any other.",
     "quotations of all kinds"),
]
for id, title, area, statement, what in AREAS:
    prop(id, title, statement, [INPUTS], f"every accepted token sequence with {what}",
         FEW + "how a construct is grouped depends on all that may follow it.",
         [CST, CON, HELP, MACRO], [("grammar rules, in the order in which they are tried", CST), ("parsers derived from the fields", MACRO)],
         f"derivations of the rules of this area with up to 3 (4) deviations from the shortest, all single changes of those with one, all sequences of 5 (7) over each of the small alphabets of the area (AREA {area} in registry.rs), every list of its rules with 2, 3, 70 and 300 (up to 1100) elements, repeated BAhE, UI and so on at every place, all example texts",
         "The set of token ranges of all nodes compared with an independent interpreter of the grammar (models/grammar.txt). Trusted: that grammar.")

prop("C25", "The nodes of a tree have the right names and places in it",
     "The same construct appears in every tree under the same name, with its parts in the same order and nesting, and different constructs have different names: "
     "the tree as a whole (names, depth, number of children, places) is the one the grammar gives.",
     [INPUTS], "every accepted token sequence",
     FEW + "names are compared in few of them.",
     [CST, CON, HELP, MACRO, NODE], [("names of derived nodes", MACRO), ("transparent helpers", HELP)],
     "the spaces of C14",
     "The whole tree compared with the reference interpreter's, with names learned consistently (a bijection). Trusted: models/grammar.txt.")

prop("C26", "Syntax errors point at the first word that cannot continue",
     "When a token sequence is rejected, the error is located at the furthest token at which a reading of the grammar got stuck (or at the end), the location is "
     "the rest of the tokens from there, and it says which token was found there and, if any were looked for, exactly the word classes that could have continued. Of two failures that are merged, "
     "the one at the later token counts, and at the same token what they expect is united.",
     [INPUTS], "every rejected token sequence",
     "The tests contain a handful of errors and do not look at their contents.",
     [ERR, CST, HELP], [("merging of errors of alternatives", ERR), ("errors kept after optional parts", HELP)],
     "the spaces of C14, all beginnings of derivations with up to 2 deviations, derivations with a wrong word put in anywhere, and all 4624 pairs of 68 failures merged",
     "Location and set of expected classes compared with the reference interpreter (furthest failure). Trusted: models/grammar.txt.")

prop("C27", "Parsing depends on nothing but the classes of the tokens",
     "Parsing the same sequence of word classes always gives the same tree or the same error: whatever was parsed before with the same arena, wherever the "
     "tokens are in their text, and whether or not their words are experimental. Trees made earlier with the same arena stay as they are.",
     [INPUTS, HISTORIES], "every sequence of parses that share an arena, every placement of the tokens",
     "Every test uses a fresh arena and one parse.",
     ["src/parse/cst/mod.rs", "src/parse/arena.rs", CST, HELP], [("allocation in the arena", "src/parse/arena.rs")],
     "derivations of all rules with 1 (2) deviations alone, all pairs of the shortest derivations of all rules, triples of a selection, consecutive "
     "example texts, every word class, in one arena, with the first again at the end",
     "The library is compared with itself; no model is trusted.")

prop("C28", "Regions of text behave like intervals",
     "Regions behave as half-open intervals of byte positions: length, emptiness, containment, overlap (symmetric; an empty region overlaps only what strictly contains it), the gap "
     "between two regions, and the text in, before and after a region (nothing if out of bounds or inside a character). A region cannot end before it starts.",
     [INPUTS], "all regions and locations, all pairs of regions, and any text",
     "The documentation has one or two examples for each function.",
     [SPAN], [("arithmetic on start and end", SPAN)],
     "all pairs of regions within 13 (24) positions and at the limits of the number range, on a text with a two-byte character",
     "Complete within the bounds; the oracle is the definition by sets of positions.")

os.chdir(HERE)
with open("properties.jsonl", "w") as out:
    for p in P:
        out.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quantifier"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                         observe_at=["public API of the library"], hook_needed=None)), ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]

manifest = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=[dict(
        property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json", technique="bounded exhaustive enumeration of the real code against "
        + ("an executable reference model" if "ompared with" in p["note"] and "with itself" not in p["note"] or "reference" in p["note"] else "an invariant or itself"),
        level="model_checking", level_note=p["note"] + " Bounds (quick, thorough in parentheses): " + p["bounds"] + ".") for p in P],
    not_applicable=[],
    notes="No hooks in /repo: everything is reached through the public API. DESIGN.md describes the models, the spaces and the known findings.",
)
json.dump(manifest, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("MANIFEST.json", "a").write("\n")
# the titles and bounds, for the harness
with open("harness/models/properties.tsv", "w") as out:
    for p in P:
        out.write(f"{p['id']}\t{p['title']}\t{p['bounds']}\t{p['note']}\n")
