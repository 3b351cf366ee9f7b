#!/usr/bin/env python3
# Generates /verif/MANIFEST.json.
import json
T={
"P01":("panic / hang / abort monitor over hostile inputs, every read operation on everything accepted","Held on the inputs generated: structured mutations of well-formed messages, random words and bytes, every message type, family and packet type. Trusts the checked build (overflow checks on)."),
"P02":("acceptance compared with an independent well-formedness oracle (wire-format tables)","Held on the inputs generated, which include every 16-bit header combination per type. Trusts harness/src/tables.rs. Inconsistent group/address across flex packets, invalid UTF-8, sysex7 packet bytes with the top bit, and data after multi-packet messages are not judged."),
"P03":("getter results compared with an independent bit-field decoder","Held on the messages generated, all other bits arbitrary. Trusts the field positions in harness/src/tables.rs."),
"P04":("online checker: after each setter the raw data and all getters are compared with a shadow model","Held on the setter histories generated. Trusts the field positions in harness/src/tables.rs."),
"P05":("round-trip monitor: raw data of built and edited messages re-interpreted three ways","Held on the edit histories generated."),
"P06":("dispatch result compared with the members' own acceptance; delegated operations compared with the member's","Held on the headers and contents generated; needs no reference tables."),
"P07":("history checker: payload after every edit compared with a Vec edited the same way","Held on the edit histories generated (all buffer kinds, uneven start messages, data sources with unknown or misleading size hints within the Iterator contract)."),
"P08":("raw data after every edit compared with a reference packetiser","Held on the edit histories generated from new or compact messages."),
"P09":("overflow verdict compared with the computed size at every capacity; state after failure exercised","Held on the operations and capacities generated. Values of fields after a failed edit are not judged."),
"P10":("round-trip and reference-encoding monitor over both representations","Held on the messages and destination buffers generated."),
"P11":("rebuffer monitor: every pair of buffer kinds, raw data and fields compared","Held on the messages generated. One recorded finding: fallible rebuffering counts data after the message."),
"P12":("packet partition and packet getters compared with a reference decoder","Held on the messages and words generated. Slices shorter than the packet are not judged."),
"P13":("iterator scripts (next / nth / size_hint / len in any order) checked against the item list","Held on the scripts generated."),
"P14":("history checker: text, bytes and packets after every edit compared with a reference encoder","Held on the histories generated; every length up to four packets for each text type."),
"P15":("differential monitor: the same history run in ten buffer kinds with dirty memory","Held on the histories generated."),
"P16":("counting global allocator around every library call on non-allocating buffers","Held on the calls made; counts allocator calls of the executing thread, so nothing is missed in them."),
"P17":("outcome digests compared between checked, optimised and AddressSanitizer builds; Miri interpreter on a sample","Held on the cases run in all builds. Miri sees a few hundred cases only."),
"P18":("history checker and acceptance oracle against a byte image of the discovery message","Held on the histories and slices generated. Messages longer than the version's layout are not judged."),
"P19":("feature subsets built; the workload run in each and judged there, digests compared with the all-features build","Held for the subsets listed in the evidence."),
"P20":("comparison, copy and printout of pairs of messages checked against the raw data","Held on the pairs generated. Buffers with room beyond the message are not judged: there the library compares and prints the whole buffer."),
"P21":("the workload run on a 32-bit target (WebAssembly) and, by sample, interpreted for a big-endian one (Miri); judged there, digests compared with the host","Held on the cases run. The 32-bit run is the whole quick workload; the big-endian one about a thousand cases."),
}
checks=[]
for p,(t,n) in T.items():
    checks.append({"property":p,"quick_cmd":f"python3 tools/check.py {p} quick","thorough_cmd":f"python3 tools/check.py {p} thorough",
      "evidence_file":f"evidence/{p}.json","technique":"runtime monitoring: "+t,"level":"exploration","level_note":n})
m={"version":1,"setup_cmd":"python3 tools/check.py --setup",
 "hooks":{"guard":"none","enable":"no hooks: everything is observed through the public interface","source_commits":[]},
 "checks":checks,"not_applicable":[]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
