_T = 'Trusts the system-call seam, our document writer and reference models; one process, documents to about 1 MB. '
DEFAULT = 'Seeded search; nothing is claimed about runs not drawn. ' + _T
TECH = {
 'C01': 'deterministic simulation of whole commands; seeded system-call, tool and interrupt faults; comparison with the fault-free run and stored content',
 'C02': 'deterministic simulation of whole commands; faults and interrupts at numbered operations; leftovers counted at the end',
 'C03': 'deterministic simulation with hostile stored names and faults inside a recording write jail',
 'C04': 'simulated sources with seeded deliveries and read sizes against reference decoders',
 'C05': 'simulated truncation, read failures and disk errors at seeded offsets against a reference record parser',
 'C06': 'seeded interleavings of readers over one document against each reader alone',
 'C07': 'seeded thread scheduler (one choice per traced line) over real conversions against the sequential run',
 'C08': 'simulated clock, randomness, directory order, environment and process history varied under one document',
 'C09': 'seeded transient faults followed by a retry on the same objects against an undisturbed session',
 'C10': 'seeded stored-data damage under time and memory bounds; growth at four times the size',
 'C11': 'seeded damage or failure of one stream; every other reader against the undamaged document',
 'C12': 'simulated absence, breakage and death of components against the full configuration',
 'C13': 'crashes, faults and interrupts at numbered operations of the package writer; own zip reading afterwards',
 'C14': 'repeated simulated sessions with faults; resources counted after every pass',
 'C15': 'simulated log levels, log files and failing diagnostics against the plain run',
 'C16': 'kills, faults and interrupts at numbered operations; delivered bytes against the undisturbed run',
 'C17': 'seeded stored-data damage; XML and JSON outputs parsed by independent parsers',
}
NOTE = {
 'C07': 'Seeded search over interleavings at line granularity; C code of lxml, zlib and olefile runs without preemption. ' + _T,
 'C10': 'Seeded search; bounds are generous multiples of the stored size; XSL conversions are bounded but not judged for linear growth. ' + _T,
 'C13': 'Crash model: what was handed to the kernel before the crash stays, nothing else (no reordering of unsynced pages). ' + _T,
 'C14': 'Growth is called a leak if it shows in every one of six repetitions. ' + _T,
}
