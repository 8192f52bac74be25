import json
V="/verif"
N={
"C01":("explicit enumeration of message values (deviation bound 2 from base values), each executed as an encode/decode trace of the real code against a reference normal form","Every base value, every single-field deviation over the full field alphabet and every two-field deviation over reduced alphabets, for all 182 message types, is run through the real encoder and decoder. Values outside the alphabets and three-field interactions are not covered. Trusts the layout table and the reference normalisation."),
"C02":("explicit enumeration of message values, bytes compared step by step with an independent reference encoder interpreting the layout table","All values within the deviation bound give exactly the reference bytes. Trusts spec/layout.txt, which was extracted once and reviewed against the protocol descriptions in the repository."),
"C03":("explicit enumeration of wire images (reference encodings, every single-byte change, adjacent-pair changes, every pad placement) decoded by the real code and compared with a reference decoder","Every enumerated wire image is decoded to exactly the reference value and position. Byte changes are bounded to one byte (256 values) or two adjacent bytes (7 values each)."),
"C04":("exhaustive exploration of frame x body x prior length x offset x capacity, and of all operation histories on one frame object up to the depth bound, against a model of the length field","All listed bodies (every message type, every size 0..600, large groups) and all histories to depth 4 (thorough 5)."),
"C05":("exhaustive exploration of buffer prefixes, bodies, registry states and all operation histories on frame, buffer and checksum registry up to the depth bound, against reference checksums","All histories to depth 4 (thorough 5) over 13 operations per frame, plus all value cases; reference checksums are independent implementations."),
"C06":("exhaustive enumeration of the checksum automata's inputs (all strings up to 3 bytes, thorough 4; every position and byte value of every length up to a bound; buffer kinds; call histories) against the published register automaton","All byte strings up to 3 bytes (4 in the thorough tier), all single-position variations up to length 300, selected long lengths; longer arbitrary data follow from the automaton structure only if the code is a byte-wise automaton."),
"C07":("explicit enumeration of code spaces (all 16-bit codes, dense ranges and all 1-2 bit neighbours of 32-bit codes, all short texts) in lookup and decoding against the published tables","16-bit tables are covered completely; 32-bit and text tables on dense ranges and neighbourhoods of the published codes."),
"C08":("stateless exploration of all operation sequences (register, replace, remove, look up, decode) up to the depth bound on the real registries against a map model","All sequences to depth 4 (2 in a fresh class-loader image; thorough 5 and 3) for all 18 registries; checksum registry to depth 5 and 3."),
"C09":("explicit-state exploration of operation histories on one message object (decode, failed decode at every cut, encode, set, hash, compare) up to the depth bound, compared with a fresh object","All histories within the bound for all message types and base values."),
"C10":("exhaustive enumeration of buffer configurations (kinds, offsets, capacities, every composite cut, every growth point) executed on the real code","All buffer kinds Netty offers for this purpose x every cut position x every insufficient capacity for three base values per message type and variant."),
"C11":("exhaustive fault enumeration inside a model-checking loop: every truncation point x stale-byte environment, every hostile length value, every corrupted byte, all short inputs, judged by a reference decoder","Every strict prefix of every base encoding is decoded in five environments; memory is measured per attempt."),
"C12":("explicit enumeration of value pairs and setter/getter/equality/hash/print operation sequences on the real objects against reference equality","All single-field and two-field deviations per message type; equality is compared with field-wise equality."),
"C13":("exhaustive enumeration of texts (all strings up to 5 code points over 12 symbols), widths, pads and sides, and of all byte strings up to 6 over 10 values, against a reference","All strings within the alphabet bound, every declared fixed-width field of every message."),
"C14":("exhaustive enumeration of short frame streams x all segmentations/cut points x rejected frames, replayed with a retrying reader, against the concatenation of reference encodings","All streams to length 3 over representative frames, every cut point (and pairs of cuts), for all five protocols."),
"C15":("controlled-scheduler exploration of thread interleavings of the woven real code (preemption bound 2, conflict-directed scheduling points, class initialisation modelled) against sequential results","All interleavings with at most 2 preemptions (thorough 3) at conflicting accesses and lock operations, for each harness; sequentially consistent memory only."),
"C16":("controlled-scheduler exploration of thread interleavings of the woven real registries including the JDK maps they use (preemption bound 2), histories checked for linearizability against a sequential map by brute force","All interleavings with at most 2 preemptions (thorough 3) for each pair/triple of operations on each registry; sequentially consistent memory only."),
"C17":("explicit-state enumeration: every state x every operation for 8 and 16 bits, bounded states for 32 and 64 bits, and all operation histories to the depth bound, against a set model","Complete for ByteBitMap and ShortBitMap states; for 32/64 bits all states within 2 (thorough 3) positions of empty/full plus runs, bytes and septets."),
"C18":("explicit-state enumeration of bitmap states x prior contents, each written and read back on the real code, against the identity","Complete for 8 and 16 bits, bounded for 32/64 bits. Three recorded known findings (Short, Int, Long): the check accepts exactly the recorded wrong result and nothing else."),
"C19":("exhaustive enumeration of group sizes and text lengths (0..300, all power-of-two boundaries, the prefix maximum) at every prefix position, executed on the real code against the reference","Every length-prefixed position of every message x the listed sizes up to 65535 (100000 for 4-byte prefixes)."),
"C20":("exhaustive fault injection: every point at which the buffer can refuse to grow (and pairs of them), every missing part, failing bodies and services, each followed by explored recovery encodes compared with a fault-free instance of the library","Every insufficient capacity for all base values and text shapes of all messages, heap and direct; pairs of failures for plain messages (every fifth second point in the quick tier)."),
"C21":("explicit enumeration of environment configurations (default charset x locale x zone, Netty switches, Java versions), each a process in which all base values, shapes and text alphabets are executed against the reference","28 configurations in the quick tier, the full charset x locale x zone product in the thorough tier; Java 17, 21 and 25 only, because the harness needs 17."),
"C22":("explicit-state exploration of long histories with a monitor on the size of the state: every scenario is executed with ever new values and the object graph behind static fields, thread locals and reused messages is measured after 48, 96 and 144 steps, where it grew every time up to 160000 steps","Growth that needs more than the enumerated kinds of operation, or that starts only after 144 of them, is not seen; a cache of more than about 100000 entries would be reported as unbounded."),
}
import sys
have=sys.argv[1:] or list(N)
checks=[]
for k in have:
    t,n=N[k]
    checks.append(dict(property=k,quick_cmd=f"./check.sh {k} --tier quick",thorough_cmd=f"./check.sh {k} --tier thorough",evidence_file=f"evidence/{k}.json",technique=t,level="model_checking",level_note=n))
na=[dict(property=k,reason="check under construction") for k in N if k not in have]
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,notes="check.sh compiles /repo's current main sources, then explores; the tier comes from VERIF_TIER. See DESIGN.md."),open(V+"/MANIFEST.json","w"),indent=1)
