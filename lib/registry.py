"""Imports every module that registers property checks; says which specification decides what."""
import m_archive, m_erase, m_publish, m_faults, m_objects, m_file, m_data, m_stream, m_transport, m_identity, m_packet, m_context, m_crypto
TRACED = {"S01", "S02", "S03", "S04", "T01", "T02", "T03", "T05", "T06"}
NA = {}
_S = "exhaustive for the instances in lib/m_stream.py (<=3 streams, <=2 keys, <=8 sequence numbers, <=3 ciphertexts); random behaviours of larger instances; sequence numbers mapped to 64-bit values for packet counts 1..32768"
SPECS = {p: ("spec/Stream.tla", _S) for p in ("S01", "S02", "S03", "S04", "S05")}
_T = "exhaustive for the instances in lib/m_transport.py (2-3 endpoints, <=8 packets on the wire, <=1-2 forged ones); random behaviours of six endpoints with 60 packets; runs of up to 33000 packets for key periods 1..32768"
SPECS.update({p: ("spec/Transport.tla", _T) for p in ("T01", "T02", "T03", "T04", "T05", "T06")})
SPECS["T07"] = ("spec/TPacket.tla", "exhaustive over packet classes (types, 16 authentication kinds, boundary sequence numbers, body lengths, 14 kinds of change) for one packet; random behaviours with two packets; concrete values drawn per class")
_I = "exhaustive for the instances in lib/m_identity.py (3 roots, 2 nodes, 8 signatures; every order of replacing parts, asking, copying); random behaviours of length 60"
SPECS.update({p: ("spec/Identity.tla", _I) for p in ("I01", "I02")})
SPECS["I04"] = ("spec/Sign.tla", "exhaustive for 2 key pairs, 2-5 messages, 3 digests, 5 key forms, 10 kinds of change; signatures with a short r or s through every encoding; concrete bytes drawn per class")
TRACED |= {"I01", "I02"}
_M = "exhaustive for the instances in lib/m_packet.py (<=6 contexts, <=3 packets of which <=2 genuine, 13 byte changes, splices, 42 member-made combinations, 8 attributions); random behaviours with 12 packets; byte positions and payload values drawn per class"
SPECS.update({p: ("spec/Packet.tla", _M) for p in ("M01", "M02", "M03", "M04", "M05", "M06")})
_C = "exhaustive for the instances in lib/m_context.py (<=5-6 objects of any kind, 2 devices, 2 passphrases, 13 changes of exports); random behaviours with 22 objects, 3 devices and every operation"
SPECS.update({p: ("spec/Context.tla", _C) for p in ("C01", "C02", "C03", "C04", "C05")})
SPECS["K01"] = ("spec/Cipher.tla", "exhaustive for one result (2 keys, 4 additional-data values, all changes) and for two results assembled from parts; random behaviours with 16 results")
SPECS["K02"] = ("spec/Kdf.tla", "exhaustive for one parameter set of every algorithm (7 output lengths, 4 salts, 4 informations, 4 secrets) and two HKDF or three password sets; random behaviours with 12 sets; scrypt runs with cost/4096 and bcrypt with cost 4, the requested cost is recorded")
SPECS["K03"] = ("spec/Ecdh.tla", "exhaustive for 10 parameter sets, 3 key pairs in private and public form, 3 kinds of change; random behaviours with 4 pairs and 10 texts")
SPECS["D02"] = ("spec/Print.tla", "exhaustive for up to 3 fingerprints over 3 keys in both forms, 5 confusable identifiers and 4 crafted values differing in one chosen byte; random behaviours with 20 fingerprints")
SPECS["D03"] = ("spec/Codec.tla", "exhaustive over all texts of length <=3 over 5 boundary bytes, every length up to 100 (thorough: 1..79 and up to 1000), every character in 4 positions; random edits")
SPECS["D04"] = ("spec/Arrays.tla", "exhaustive for one array of 2 places and 3 items with every operation, and an array with its copies; random behaviours of 8 arrays and 40 items; copy failures at every item")
SPECS["D05"] = ("spec/Buffers.tla", "exhaustive for one buffer of <=4 bytes with every offset and length and 8 classes of far ones (wrapping sums, 2^31, 2^32, 2^63, 2^64-1), two buffers of <=3 bytes; random behaviours of 6 buffers; the greatest allowed size")
SPECS["D08"] = ("spec/Device.tla", "exhaustive for two derivations over 3 devices and 3 salts of equal length; random behaviours with 20 derivations")
SPECS["K04"] = ("spec/File.tla", "exhaustive for 2-3 files, 2 keys, 2 ciphers, 11 changes, 11 failures of reading, writing, closing and renaming, 21 points of dying in an operation; random behaviours with nested encryptions; sizes around block boundaries up to 3 MB")
_O = "exhaustive for one object of each of 33 kinds with every choice of one absent part (thorough: every subset), its copies, one altered field, encodings and restored objects; random behaviours of 8 objects of all kinds; truncations and 150 (thorough: 4000) random changes of every encoding"
SPECS.update({p: ("spec/Objects.tla", _O) for p in ("D01", "D06")})
SPECS["D07"] = ("spec/*Faults.tla", "every primitive call an operation makes (random bytes, ciphers, digests, MACs, signatures, key agreement, derivation, key import and generation, allocation inside the crypto library) failing in turn, for every operation reached by a tour of small instances of the 12 specifications; random behaviours of larger ones")
SPECS["I03"] = ("spec/Publish.tla", "exhaustive for 2 objects of every form (whole, stripped, copied, rebuilt), one publication kept; packets of two devices, sessions between three, exports with one secret told; random behaviours with 14 objects, 14 publications, 3 devices of 2 accounts")
SPECS["D09"] = ("spec/Archive.tla", "exhaustive for one restored context (thorough: two) on each of 3 devices against every recorded artefact, passphrase and key, every order of the packets of a recorded stream (6 of 20) and connection (8 packets), 29 recorded derivations; random behaviours with 6 contexts; the archive is of one fixed set of keys and texts")
SPECS["D10"] = ("spec/*Erase.tla", "exhaustive for one object of each of 33 kinds with every choice of one absent part, copied, encoded, destroyed; a tour of small instances of 10 further specifications with every released block searched for every secret of the objects, the engine and the session; random behaviours of larger ones")
