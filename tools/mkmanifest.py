#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EXPLORE = ("Random search with shrinking from VERIF_SEED, fixed amount of work; a violation is a minimal "
           "choice sequence replayable with `target/debug/harness replay <file>`. ")

CHECKS = {
    "C01": ("property-based testing: arbitrary and mutated texts, parser-reuse histories, deep/long probes",
            "Totality, determinism and statelessness on the generated texts and configurations; depth probes run in "
            "child processes on the default stack. Four nesting depths of 100000 are known findings."),
    "C02": ("property-based testing: documents rendered from a model, with the model's events as oracle",
            "Exact events for generated documents in every lexical variation; trusts the generator's own account of "
            "what a document spells out, cross-checked against an independent reference parser."),
    "C03": ("property-based testing: differential against an independent reference parser over mutated documents",
            "Accept/reject and events agree with a hand-written reference parser on generated and mutated texts."),
    "C04": ("property-based testing: differential against a reference expander, recording lookups",
            "Result, error, byte range and the sequence of lookups agree with a hand-written expander."),
    "C05": ("property-based testing: references planted at every syntactic position, model events as oracle",
            "Expansion exactly at the positions the model names, with replacement texts full of markup."),
    "C06": ("property-based testing: differential between trimming on, off and a model of trimming",
            "Trimming on the generated whitespace placements, ASCII and Unicode."),
    "C07": ("property-based testing: keyword lists against a model of priority, three handling modes",
            "Keyword resolution and section handling for generated lists, spacings and entity tables."),
    "C08": ("property-based testing: generated section bodies and nestings against a reference scanner; INCLUDE inlining as a metamorphic relation",
            "Section ends for generated bodies, nestings and siblings in every mode."),
    "C09": ("property-based testing: metamorphic relation between the three normalizations",
            "Names of all scripts against char::to_lowercase/to_uppercase of the standard library; every other event equal."),
    "C10": ("property-based testing: metamorphic relations (filtering, comment insertion)",
            "Filtering options and comment insertion at generated places."),
    "C11": ("property-based testing: round trip through Display and parsing",
            "Round trip of parsed, edited and hand-built fragments, up to merging of adjacent text."),
    "C12": ("property-based testing: round trip and step-by-step iterator model",
            "Escaping is inverted by expansion; the iterator is compared with a list after random numbers of steps."),
    "C13": ("model-based property testing: edit histories against a per-position model",
            "Edit histories of up to 60 insertions and removals, recorded in different orders."),
    "C14": ("property-based testing: documents with end tags removed, complete document as oracle",
            "Normalization restores the document from which end tags were removed, for all unambiguous removals."),
    "C15": ("property-based testing: invariants over arbitrary event sequences and parsed texts, with a model of when to refuse",
            "Balance, insert-only and refusal on arbitrary fragments."),
    "C16": ("property-based testing: random types and values rendered in random representations, deserialized back",
            "Schemas up to depth 4 through a run-time Deserialize implementation that follows serde-derive's rules."),
    "C17": ("property-based testing: differential against FromStr and a model of booleans",
            "All scalar types from attributes and elements, for generated numeric-looking and arbitrary texts."),
    "C18": ("property-based testing: sequences planted among siblings, generated value as oracle",
            "Contiguous runs, tuples, interruptions and arities at random depths."),
    "C19": ("property-based testing: enum representations compared with each other and with the generated value",
            "All variant kinds through text, attribute, $value and tag name, with following content checked."),
    "C20": ("property-based testing: $value structs in every context, generated value as oracle",
            "$value text and children among attributes, neighbours, sequences and maps."),
    "C21": ("fuzzing: arbitrary fragments against arbitrary types, fuel-limited visitors, deep/long probes",
            "No panic, no abort, bounded number of entries on arbitrary event sequences and types."),
    "C22": ("property-based testing: an unsupported event or tag fault injected at every reading position",
            "The error names the injected event; mismatched or truncated documents never yield a value."),
    "C23": ("property-based testing: metamorphic insertion of unmentioned content",
            "Value unchanged after insertion of extra attributes, elements and trailing material."),
    "C24": ("property-based testing: metamorphic rewrites of a document through the whole pipeline",
            "Same typed value for every composition of the listed rewrites, against the generated value."),
    "C25": ("property-based testing: pointer-level borrowing checks and equality of views",
            "Borrowing is checked by pointer ranges; owned copies outlive their source."),
    "C26": ("property-based testing: parse of the rendered message, planted undefined references and keywords",
            "Line, excerpt and caret recomputed from the byte position in the detailed error."),
    "C27": ("property-based testing: differential against reference matchers, suffix-extension metamorphic relation",
            "Every public matcher of raw, util and events, on generated and mutated inputs."),
    "C28": ("property-based testing: round trip of dynamic values and of derived flattened, untagged and tagged types",
            "Random element trees read as whatever is there; random types with such parts anywhere; derived types against values written by the generator."),
    "C29": ("property-based testing: stateful (histories of builder calls) against a model of the settings, differential against the reference parser",
            "Random call histories, permuted and reduced to the last call per setting; changing lookup tables; configuration fields and helpers against models."),
    "C30": ("property-based testing: metamorphic relation between sizes of generated inputs, measured in processor time of the thread",
            "Random units repeated in random places; the time per unit may not grow by more than 10 times over 64 times the size. Measures are repeated before a violation is reported."),
    "C31": ("property-based testing: differential against an independent reference parser piece by piece, and against the whole parse",
            "Documents, mutations and rendered pieces through every public event parser with three kinds of error details; document = concatenation of its pieces."),
    "C32": ("property-based testing: fault injection into values and documents of random types, error values against Rust's own and the reference parser",
            "One scalar, variant, field or end tag of a fitting document made wrong; one undefined reference or keyword; kind, content, message and source of the error before and after conversion."),
    "C33": ("property-based testing: recording targets that read every entry in a random way, against the element they are given",
            "Random elements and random ways of reading each entry; random types that refuse unknown fields, with and without additions."),
    "C34": ("property-based testing: stateful (sequences of reads through one deserializer) against the value each element was written for",
            "Up to sixty root elements of random, often repeated types and names, read in turn or skipped; a further read is an error."),
    "C35": ("property-based testing: fault injection (wrong texts in the document, errors raised by the target after a random number of steps) into targets with parts that may fail, against the value written",
            "Exactly the innermost part that may fail around the fault has failed and all else equals the generated value; arbitrary requests that go on after errors never panic (C21, sub easy)."),
}
PENDING = "not claimed yet: its check is being built"
CLAIMED = os.environ.get("CLAIMED", "").split() or sorted(CHECKS)

m = {
    "version": 1,
    "setup_cmd": "cd harness && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target cargo build --offline --locked",
    "checks": [
        {
            "property": c,
            "quick_cmd": f"./run.sh {c} quick",
            "thorough_cmd": f"./run.sh {c} thorough",
            "technique": CHECKS[c][0],
            "level": "exploration",
            "level_note": EXPLORE + CHECKS[c][1],
        }
        for c in CLAIMED
    ],
    "not_applicable": [{"property": c, "reason": PENDING} for c in sorted(CHECKS) if c not in CLAIMED],
    "notes": "All checks live in one crate, /verif/harness, built against /repo's working tree by run.sh. No hooks in /repo are needed.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
