#!/usr/bin/env python3
"""Writes MANIFEST.json (run: python3 tools/mkmanifest.py > MANIFEST.json). Claimed: the properties that have a note below."""
import json, os
NOTES = {
 "C01": ("property-based testing: generated vocabularies, texts, processors and special tokens; round trip against the processed text", "Random exploration with shrinking. Processors are taken from the library (C10 decides them); special-token splitting is re-implemented."),
 "C02": ("property-based testing: differential against an exhaustive and an O(n^2) reference segmentation, exact dyadic scores", "Random exploration. Scores are multiples of 1/64 in the exact checks so that sums are exact in any order."),
 "C03": ("property-based testing with exact laws at p<=0 and p>=1 and binomial tail bounds in between", "Random exploration. The statistical bounds fail on correct code with probability below e^-30 per comparison."),
 "C04": ("property-based testing: differential against a naive leftmost splitter", "Random exploration."),
 "C05": ("stateful model-based testing: generated operation histories against a list model", "Random exploration of histories of up to 30 operations."),
 "C06": ("property-based testing: differential against a reference decoder", "Random exploration."),
 "C07": ("metamorphic property-based testing: batch against single calls, 1 to 16 rayon threads", "Random exploration; schedules are whatever rayon produces for generated batch sizes and thread counts."),
 "C08": ("property-based testing: save/load round trip plus an independent reading of the document", "Random exploration. JSON syntax is read by serde_json on both sides. One known finding (json-float-ulp)."),
 "C09": ("structured fuzzing: documents from an own JSON writer, grammar-level and byte-level mutations with a verdict oracle", "Random exploration in worker processes with memory and processor-time limits."),
 "C10": ("property-based testing (Hypothesis) through the Python binding: differential against unicodedata", "Random exploration over characters assigned in both Unicode versions."),
 "C11": ("stateful model-based testing: prefix search against a scan over a list of tokens", "Random exploration of addition histories."),
 "C12": ("property-based testing: n-best against exhaustive enumeration of segmentations", "Random exploration, exhaustive enumeration of all segmentations for short sentences, exact DP for long ones."),
 "C13": ("property-based testing: marginals against exhaustive enumeration and an independent forward-backward", "Random exploration, relative tolerance 1e-9 class."),
 "C14": ("property-based testing of the command line: reference candidate enumeration, invariants over the written vocabulary", "Random exploration over generated corpora, files, patterns and thread counts."),
 "C15": ("property-based testing of the command line: differential against a reference generator, binomial bounds for 0<p<1", "Random exploration."),
 "C16": ("property-based testing of the command line: invariants over input and output, bounded processor time", "Random exploration; termination is bounded by processor time."),
 "C17": ("property-based testing of the command line: differential against a reference EM and pruning step", "Random exploration; cases within rounding distance of a threshold or a tie are not compared."),
 "C18": ("property-based testing of the command line: tie-aware reference filter", "Random exploration."),
 "C19": ("property-based testing of the command line: invariants over appended tokens, replayed in rounds", "Random exploration; termination is bounded by processor time."),
 "C20": ("property-based testing of the command line: replay of every round against recounted pairs", "Random exploration; ties in counts are left free."),
 "C21": ("property-based testing of the command line: differential against an independent counter", "Random exploration; patterns are generated from an AST with an own leftmost-first matcher."),
 "C22": ("property-based testing: generated patterns (AST) against an own backtracking matcher", "Random exploration over a regular-expression subset; named patterns are judged with the regex engine, one at a time."),
 "C23": ("property-based testing: named patterns against hand-written recognisers over generated and mutated strings", "Random exploration; the recognisers are our reading of names, documentation and examples."),
 "C24": ("property-based testing of the command line: generated corpora and faulty sources, exact sample accounting", "Random exploration."),
 "C25": ("stateful property-based testing: generated command pipelines with invariants after each step", "Random exploration."),
 "C26": ("property-based testing (Hypothesis) of the Python module against a Python reference", "Random exploration."),
 "C30": ("property-based testing (Hypothesis): the scripts run on generated sources and sample files against a reference accounting", "Random exploration; downloads are replaced by generated samples, infilling data (drawn at random) is not judged; tokenizer libraries other than tokengeex are replaced by stand-ins."),
 "C31": ("property-based testing (Hypothesis): the scripts run on generated sample files and vocabularies, with stand-ins for the libraries, against a reference", "Random exploration; tiktoken, sentencepiece and tokenizers are not installed and are replaced by stand-ins."),
 "C28": ("property-based testing with fault injection: generated command lines with one fault each, snapshots of all files before and after", "Random exploration of commands, options, faults and older outputs; interruption during a write is not among the faults."),
 "C29": ("property-based testing: generated calls in several threads against the same calls alone", "Random exploration; the schedules are those the operating system and rayon produce under generated loads."),
 "C27": ("property-based testing (Hypothesis) of the Python module: pickle, copy and save faults", "Random exploration over histories, protocols and unwritable targets."),
}
here = os.path.dirname(os.path.abspath(__file__))
claimed = set(open(os.path.join(here, "claimed.txt")).read().split())
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "../properties.jsonl"))]
checks = [{"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
           "evidence_file": f"evidence/{i}.json", "technique": NOTES[i][0], "level": "exploration", "level_note": NOTES[i][1]} for i in ids if i in claimed]
na = [{"property": i, "reason": "its check is not built yet"} for i in ids if i not in claimed]
print(json.dumps({"version": 1, "setup_cmd": "bash build.sh all", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: everything is observed through the public API, the command line tool and the Python module, all compiled from /repo's working tree by build.sh. Known findings: KNOWN_FINDINGS.txt. Replay a failing case with: bash replay.sh FILE"}, indent=1))
