"""MANIFEST texts: technique (a few words) and what assurance each check gives."""
T = {
 'C01': ('seeded preemption schedules over threads at line/opcode events, results against the stand-alone run of each call',
         'Every interleaving is chosen by the seed (switches at any executed line, or bytecode, of creole). Preemption inside docutils/pygments frames and inside C code is not explored.'),
 'C02': ('seeded histories of conversions in one process, with failing and interrupted predecessors, against a fresh-process run of each call',
         'The oracle is the same code in a pristine forked process. Custom ReST roles (.. role::) are a recorded finding and otherwise left out of the generated documents.'),
 'C03': ('seeded re-entrant call trees (macros and unknown-tag handlers that convert), against stand-alone runs and constant callbacks',
         'Nesting up to three levels, up to two interleaved threads.'),
 'C04': ('interrupts injected at a drawn executed line or bytecode, then and meanwhile other conversions, against undisturbed runs',
         'Interrupts arrive at Python line/bytecode boundaries of the library and of the Python modules it drives; never inside C code. docutils\' own frames are not interrupted.'),
 'C05': ('MemoryError and stack exhaustion injected at a drawn point of a conversion, result against the undisturbed run',
         'Allocation failure is raised at line/bytecode boundaries or as a real stack overflow with a drawn remaining depth.'),
 'C06': ('macro faults drawn per call in generated documents, compared with the same document and harmless macros',
         'The reference is the same code with the failing calls replaced by marker macros.'),
 'C07': ('seeded interleaving of emitters over one parsed tree with injected failures, against fresh trees and a snapshot of the tree',
         'Trees come from generated creole and HTML documents.'),
 'C08': ('seeded ambient environments (several interpreters with other hash seed/locale/environment, simulated clock, locale, cwd, threads, gc), all results must agree',
         'Environment variables and locale queries are answered by the simulator; only values it can vary are covered.'),
 'C09': ('conversions in processes whose standard streams fail as drawn and whose every I/O attempt is recorded and denied',
         'I/O is seen through interpreter audit events and patched stream/os functions; reading installed Python packages is allowed.'),
 'C10': ('stream faults injected at drawn diagnostic writes with debug/verbose on, result against the quiet run',
         'Same code, diagnostics off, is the oracle.'),
 'C11': ('generated documents against drawn file-system and network states in a simulated OS that records every access, results must agree',
         'Every open/listdir/stat/spawn/connect of the process goes through the simulated OS; docutils configuration files are excluded.'),
 'C12': ('real CLI on a simulated file system: error, interrupt or SIGKILL injected at a drawn system call or executed line, final state against the old state',
         'No power loss: what a system call wrote stays. Only the four console commands are run.'),
 'C13': ('real CLI processes interleaved at system calls with short, torn, failing writes and full disk, final file against an independent decode-convert-encode model',
         'The converters themselves are the real ones; the model is decode, convert, encode.'),
 'C14': ('real CLI in place over drawn aliases (paths, symbolic and hard links) with faults, final file against the model',
         'Aliases are created in the simulated file system.'),
 'C15': ('real CLI and README tools with drawn neighbour files and faults; the whole simulated file tree is compared before and after',
         'Killed processes are excluded (a temporary file may stay behind then).'),
 'C16': ('real README update on a simulated file system with unconvertible sources and faults before generation is finished; generated file must be unchanged',
         'The end of generation is marked where the converted text is available.'),
 'C17': ('seeded histories of edits, damage, crashes and clock jumps followed by one update; file against an independent model of text and note',
         'The model is text + "\\n---\\n" + note; the text comes from the real converter in a pristine process.'),
 'C18': ('seeded histories before an update of an up-to-date README; any write, content or mtime change is a violation',
         'Writes are seen at the simulated system-call level.'),
 'C19': ('checks of README files in drawn damaged states and with faults, verdict against the model; any write is a violation',
         'White-space differences are unspecified and not judged.'),
 'C20': ('get_long_description with faults at drawn system calls, lines and in the converter, result against a small model',
         'README texts and command lines are generated.'),
 'C21': ('publish() with drawn gate outcomes, faults and interrupts; upload calls of a recording stub against the model of the gates',
         'poetry_publish and child processes are stubs: nothing is ever uploaded or started.'),
 'C22': ('forks injected at drawn events of conversions in several threads or in the middle of one, conversions in parent and child against stand-alone runs',
         'Forks happen at line/bytecode boundaries of creole frames; only the forking thread exists in the child, as on every POSIX system.'),
 'C23': ('conversions started at drawn events of other conversions on the same thread, all results against stand-alone runs',
         'Inner conversions start at line/bytecode boundaries of creole frames (also of html.parser, shlex and pygments).'),
 'C24': ('recorded calls of generated macros and handlers with failures drawn per call, interrupts and thread switches, against the calls written in the document',
         'The order of calls is known by construction of the document; the place of results is judged by markers.'),
 'C25': ('settings of the process before and after interleaved, failing and interrupted conversions; allocator statistics over thousands of distinct documents',
         'Only the listed settings are compared. Growth below 0.12 blocks and 2.5 bytes per document is not seen.'),
 'C26': ('imports in drawn order with missing packages and with failures at drawn lines of module bodies, retries and conversions against the undisturbed process',
         'Packages are hidden by a meta path finder; failures are raised at line boundaries of module bodies or while a dependency is imported.'),
}
