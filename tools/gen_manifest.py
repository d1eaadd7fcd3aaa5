#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py: a property is claimed when it has a check there."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import registry
NOTE = {
 'J01': ('recorded call streams compared with the calls written, under ASan and UBSan', 'Generated histories only; the expected call stream comes from a small model of the emitted operations.'),
 'J02': ('file-event log with simulated power failure at every event', 'Trusts the sync model of the simulated file (sync makes earlier writes durable). Histories are generated, crash points of each are enumerated.'),
 'J03': ('kill at every file event, fault injection, real killed processes', 'Every kill point of each generated history; failing operations one at a time; real SIGKILL and RLIMIT_FSIZE runs.'),
 'J04': ('event logs of racing processes checked offline against a transaction order', 'Interleavings are those that stress and injected delays produce.'),
 'J05': ('structure-aware mutation of journals under ASan, UBSan and memory and time limits', 'Assertions are off, as in a release build; memory and time limits are proportional to the size of the file.'),
 'J06': ('overlap monitor over processes that open, lock and die', 'Linux record locks on a local file system.'),
 'J07': ('byte-array reference model run beside every kind of file', 'Generated operation sequences; SFTP and CURL files need a network and are left out.'),
 'J08': ('std::stringbuf-like reference model run beside the stream buffer', 'Changing direction is preceded by a seek or flush.'),
 'J09': ('independent SHA-256 and Python-computed digests compared', 'All lengths near block boundaries, random ranges and read chunkings.'),
 'C01': ('history of transactions from racing processes and clients checked for serial order', 'Interleavings are those that stress and injected delays produce.'),
 'C02': ('recorded client histories against the server checked for one linear order', 'Real server over loopback, stress and injected delays.'),
 'C03': ('hostile byte streams to a live server under ASan and UBSan', 'Structure-aware generated sessions; an honest client must keep being served.'),
 'C04': ('ThreadSanitizer over multi-threaded stress of client and server classes', 'Only the interleavings that occur; TSan generalises over happens-before.'),
 'C05': ('fault-injecting proxy between client and server, exactly-once checker', 'Cuts at every message boundary and random bytes.'),
 'C06': ('scripted peers with wrong, old or diverged contents', 'Enumerates kinds of mismatch.'),
 'D01': ('model-based: compiled and interpreted databases run in lockstep with a map model', 'Schemas are a fixed set compiled from the working tree by its own compiler.'),
 'D02': ('index oracle recomputed from the table after each operation', 'As D01.'),
 'D03': ('invalid operations injected; state compared before and after', 'As D01.'),
 'D04': ('random schema histories; upgraded file compared with a fresh one', 'As D01.'),
 'D05': ('reference free list run beside each Freedom_Keeper', 'Generated operation sequences.'),
 'D06': ('blob log checked on re-reading', 'Generated histories over every kind of file.'),
 'T01': ('dump, re-interpret, dump and compare, under ASan and UBSan', 'Generated databases.'),
 'T02': ('Python json and sqlite3 as oracles of the exports', 'Generated databases; sqlite3 3.45 and Python json decide well-formedness and values.'),
 'T03': ('contents before and after each tool compared through an independent replay', 'Generated databases; tools run as processes.'),
 'T04': ('command streams: interpreter against recorded calls; hostile text under sanitizers', 'Generated command scripts.'),
 'R01': ('RPC history checker with concurrent clients and hostile bytes', 'Loopback.'),
 'R02': ('Server_File reads compared with the served file while it grows', 'Loopback.'),
}
NA = []
def main():
    checks = []
    props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
    na = {p for p, _ in NA}
    for p in props:
        if p in registry.CHECKS:
            t, n = NOTE[p]
            checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                           'technique': t, 'level': registry.CHECKS[p]['level'], 'level_note': n})
        elif p not in na:
            print('no check yet:', p)
            NA.append((p, 'the check is not built yet'))
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py >/dev/null; true', 'checks': checks,
               'not_applicable': [{'property': p, 'reason': r} for p, r in NA]}, open(V + '/MANIFEST.json', 'w'), indent=1)
main()
