#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
T = {
 "C01": ("differential PBT against an independent FIPS-197 implementation", "generated keys and blocks (random, structured, every single-bit key/block, every byte value in every position); trusts refs/aes.rs, compared with libcrypto"),
 "C02": ("differential PBT against an independent RFC 2268 implementation", "the full grid of key lengths 1..128 x effective sizes 1..1024 with random keys, plus refusals outside it; trusts refs/rc.rs, compared with libcrypto and nettle"),
 "C03": ("differential PBT, stateful consumption of the key stream", "every key length 1..256, offsets to beyond 2^32, every way of consuming the iterator; trusts refs/rc.rs, compared with libcrypto"),
 "C04": ("differential PBT against an independent RC5-32 implementation", "the full grid of key lengths 0..255 x rounds 0..255 and targeted keys; trusts refs/rc.rs, compared with published vectors and a Python transcription"),
 "C05": ("model-based PBT with generated ciphers, modes and messages", "generated stateless and stateful ciphers and modes for many block sizes that record each call; message lengths around block boundaries"),
 "C06": ("model-based PBT over crafted ciphertexts", "accept or refuse as an exact model of padding decides; every pad count and length enumerated for several block sizes"),
 "C07": ("PBT with enumeration of block sizes and pad counts", "every partial length for block sizes up to 255; near-valid blocks; exhaustive small blocks"),
 "C08": ("stateful PBT over splittings of a message", "counts key bytes drawn after each consumed byte; generated key streams, ones that run out, and RC4; totals to beyond 2^32 bytes"),
 "C09": ("differential PBT against independent MD2/MD4/MD5", "every length up to several blocks, random lengths beyond, lengths over 2^29 bytes (bit counter beyond 32 bits), iterator shapes; trusts refs/md.rs, compared with hashlib, libcrypto, nettle"),
 "C10": ("differential PBT against independent SHA-1/224/256", "as C09, lengths over 2^29 and 2^32 bytes included; trusts refs/sha.rs, compared with hashlib"),
 "C11": ("differential PBT against independent SHA-384/512", "as C10 with 128-byte blocks; lengths beyond 2^61 bytes (where the upper half of the bit counter is used) cannot be run and are not covered"),
 "C12": ("round-trip PBT over digests and hex text", "all widths; hex texts of every length, case, and every single wrong character"),
 "C13": ("stateful model-based PBT over operation histories", "histories of +,-,%,<<,>> on registers of 0..600 bytes compared with an independent integer type after every step, refusals included"),
 "C14": ("model-based PBT over conversions, bits, order", "numbers up to 70 kB, structured near powers of 256; every 2-byte number enumerated"),
 "C15": ("differential PBT against independent modular exponentiation", "moduli and exponents up to 600 bytes; tiny moduli exhaustively"),
 "C16": ("PBT over generated primes and exponents", "primes of 2..130 bits, all tiny primes exhaustively; keys judged by round trips and comparison with imported keys"),
 "C17": ("differential and round-trip PBT against an independent RFC 8017", "key pairs of 521..2100 bits committed in keys.txt, ciphertexts and encodings with leading zeros constructed"),
 "C18": ("differential PBT against an independent RFC 8017 OAEP", "labels, messages, seeds, lengths; damaged blocks of every class"),
 "C19": ("PBT over damaged ciphertexts", "16 classes of damage, before and after encryption, judged by an independent RFC 8017 decryption"),
 "C20": ("round-trip and metamorphic PBT over PEM text", "every payload length 0..1100 and random ones to 2 MB; generated re-layouts"),
 "C21": ("model-based PBT over PEM line grammars", "every sequence of up to 5 of 8 line kinds, mutated texts, mutated base64, against an independent parser"),
 "C22": ("round-trip PBT over generated trees", "encoder is the harness's own; all content lengths around the length-form boundaries, up to 16 MB"),
 "C23": ("structured fuzzing of the decoder against an independent one", "every string of at most 2 bytes, mutated encodings, length fields of 0..127 bytes, prefixes, deep nesting on a small stack; BER that is not DER may be accepted or refused"),
 "C24": ("structured fuzzing of key documents against an independent importer", "keys judged by what they compute; documents damaged in one class at a time"),
 "C25": ("PBT recovering the seed of each encoding", "statistical: fresh seeds are taken to be ones that never repeat over the run; the shipped constant seed is a listed known finding"),
 "C26": ("stateful PBT over interleavings and threads", "the same operations alone, after others, and from several threads sharing objects; schedules are those the OS produces"),
 "C27": ("model-based PBT with generated padding schemes", "a scheme that records what it is asked and gives a generated answer; moduli up to 300 bytes, encodings and ciphertexts around the modulus; trusts refs/nat.rs"),
}
doc = {
 "version": 1,
 "setup_cmd": "python3 check.py --build",
 "checks": [
  {
   "property": p,
   "quick_cmd": f"python3 check.py {p} quick",
   "thorough_cmd": f"python3 check.py {p} thorough",
   "technique": "property-based testing, then coverage-guided fuzzing: " + t,
   "level": "exploration",
   "level_note": "Sampled, not proved (generated cases deterministic from VERIF_SEED, in checked and release builds, then libFuzzer-guided runs of the same properties): " + n + ".",
  }
  for p, (t, n) in T.items()
 ],
 "not_applicable": [],
 "notes": "No hooks: everything is reached through the public API. Replay a failure with `python3 check.py --replay FILE`. Known findings and repaired defects: KNOWN_FINDINGS.txt.",
}
(V / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
