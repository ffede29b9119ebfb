#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed properties below.
import json,sys
CLAIMED={
"C01":"seeded search over edit histories and byte-source behaviours against a byte-list model; no claim beyond the explored seeds",
"C02":"seeded search over edit histories, capacities and injected refusals of room, against an exact room model",
"C03":"seeded search over edit histories and cut-off points of the byte source; every cut-off point within a run is a drawn choice",
"C04":"seeded search over edit histories with refusals and interruptions; every packet's addressing checked with an independent decoder",
"C05":"seeded search over field edit histories of every fixed-size message kind, form and storage, against independently written wire layouts",
"C06":"seeded search over text edit histories on every text message kind and storage, against a plain string and the packet layout",
"C11":"seeded search over received and edited messages of every convertible kind, converted between words and bytes on several storages, against the reference codecs",
"C12":"seeded search over edited messages moved between storages of drawn capacities, against the message itself and its continued edits",
"C14":"seeded search over intact and damaged messages of every type into every aggregate parser and over operations on aggregates, against the single message type named by an independent header table",
"C15":"seeded search over field edit histories, storages, damage and packet transport of discovery queries of both versions, against an independent layout",
"C18":"seeded search over operation histories on arrays and slices and over damaged traffic, every call into the crate watched by a counting allocator",
"C19":"seeded search over damaged, truncated and noisy words and over group and channel changes of the packets in them, against an independent decoder of single packets",
"C20":"seeded search over the histories of the other properties, each lived through by two builds of the crate in one process and compared, and over received traffic in builds of one message family; a build that fails to compile is reported too",
"C10":"seeded search over senders, edit histories, link schedules and faults in a discrete-event simulation; every message sent after faults stop must arrive equal and in order",
"C13":"seeded search over consumer call schedules on every iterator over received and edited messages, against the step-by-step sequence",
"C08":"seeded search over damaged traffic (loss, duplication, reordering, corruption, truncation, interleaving, noise) into every parser, everything accepted is read completely",
"C09":"seeded search over damaged packet sequences, acceptance compared with an independent structural decoder",
"C07":"seeded search: one history executed on several storages with previously used memory, compared unit for unit",
}
NA={
"C16":"a property of the compiler's accept/reject decision on programs; no execution, schedule or fault exists for a simulator to drive (the repository's compile_fail doctests cover it)",
"C17":"the no_std build is decided by the compiler and no execution, schedule or fault bears on it",
}
m={"version":1,"setup_cmd":"bash /verif/check.sh build","checks":[],"not_applicable":[],
 "notes":"One simulator binary (sim/), one scenario set per property. Replay: bash check.sh replay <file>. No hooks in /repo: the crate's own seams (buffers, byte sources, wire words) are enough."}
for l in open('/verif/properties.jsonl'):
    i=json.loads(l)['id']
    if i in CLAIMED:
        m["checks"].append({"property":i,"quick_cmd":f"bash /verif/check.sh {i} --tier quick","thorough_cmd":f"bash /verif/check.sh {i} --tier thorough",
          "technique":"deterministic simulation with fault injection: seeded search over histories and faults, reference model as oracle",
          "level":"exploration","level_note":CLAIMED[i]+". Trusts the reference codecs and models in sim/src."})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check built yet; to be claimed by a later commit")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(m["checks"]),"claimed")
