#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
PK='pykeepass/pykeepass.py'; EN='pykeepass/entry.py'; GR='pykeepass/group.py'; BE='pykeepass/baseelement.py'
AT='pykeepass/attachment.py'; CO='pykeepass/kdbx_parsing/common.py'; K3='pykeepass/kdbx_parsing/kdbx3.py'; K4='pykeepass/kdbx_parsing/kdbx4.py'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                     mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))

prop('C01','A failed save leaves the stored database and its neighbours untouched',
 'If saving a database to a path fails for any reason - a failing or short system call, a full disk, an unreadable key file, contents or credentials that cannot be encoded, an interrupt - the call raises and the file at that path is byte for byte what it was before, or still absent (a failure or interrupt after the complete new database has been put in place may leave that instead). No other file in the directory is changed, and after a failure caused by an I/O error no stray file is left behind unless its removal failed too. A save that returns without raising has stored the complete current contents under the current credentials.',
 ['fault_sequences','inputs','histories'],'every system call of a save x every error it can return (single, repeated and combined), every interrupt point, every target name, format and preceding history',
 'test_issue223 forces one failure (a missing key file) before anything is written; no test makes a write, flush, close or rename fail, and none looks at neighbouring files.',
 [PK,CO],[('build completely, write to a private temporary file, replace in one step, clean up','PyKeePass.save in '+PK)],
 [('target file','last successfully saved database','the path given to save()')],['directory contents after save() raises or returns'])
prop('C02','A crash or power cut during a save leaves a complete old or new database',
 'Whenever the process is killed or the machine loses power while a database is being saved to a path, the file at that path afterwards is either the complete previous database or the complete new one, and opens with the matching credentials. A save that had returned before the process was killed is never lost. Whatever the crash left in the directory, other files are intact and the next save of the database succeeds.',
 ['crash_points','fault_sequences','histories'],'every crash instant between and inside the system calls of a save, every legal order in which unflushed data and directory updates reach the disk',
 'Tests never interrupt a save; the state between two system calls and the effects of write-back caching cannot be produced by a unit test.',
 [PK],[('write, flush and sync the temporary file before it replaces the database','PyKeePass.save in '+PK)],
 [('durable image','what survives the crash: synced data and a prefix of the directory updates','simulated disk')],['reopening the path after the crash'])
prop('C03','Concurrent opens and saves only ever see complete databases',
 'When several callers (threads or processes, each with its own database object) open and save databases at the same path or at different paths in the same directory, in any interleaving, every open returns the contents of one complete save that was current at some instant during the open, and every save succeeds. When all have finished, each path holds exactly what the last save to that path wrote, and files that nobody saved to are unchanged.',
 ['schedules','histories'],'every interleaving of the file system operations of concurrent opens and saves, every combination of same and sibling paths',
 'All tests run one operation at a time in one thread.',
 [PK],[('unique temporary name and atomic replace','PyKeePass.save in '+PK),('whole file is read through one open file','PyKeePass.read in '+PK)])
prop('C04','What was saved is exactly what is read back',
 'After any history of edits, saves, saves under other names, failed saves, reloads and restarts, opening or reloading a database yields exactly the state it had at the last successful save to that path: all groups and entries with their order and nesting, all fields, custom fields, protection flags, tags, icons, times, auto-type settings, history, attachments and database settings. This holds for every supported format version, cipher, key derivation, compression setting and payload size, and an independent reader of the published format sees the same state in the file.',
 ['histories','inputs','configurations','fault_sequences'],'every history of API operations, storage faults and restarts over every database configuration',
 'test_open_save checks that 15 small databases can be opened again after a save without comparing contents; other tests round-trip a single field. No test covers a payload larger than one block or compares with an independent reader.',
 [PK,EN,GR,CO,K3,K4],[('serialisation, inner stream encryption, compression, block splitting, encryption','kdbx_parsing/*'),('API setters and getters','pykeepass/*.py')])
prop('C05','A damaged file is never accepted with different contents',
 'If the stored bytes of a saved database are damaged in any way - flipped bits, truncation at any point, lost, zeroed, duplicated or exchanged regions, or regions of an older save of the same database - opening it either raises or yields exactly the contents that were saved (in KDBX3, for databases that carry the header checksum the format prescribes; a file that consists of the complete header and blocks of an older save is that older save, not a damaged file). Opening a damaged KDBX4 file does no key derivation with damaged parameters, and so always finishes promptly.',
 ['fault_sequences','inputs','configurations'],'every damaged byte range and every mixture of two saves, over every database configuration',
 'Tests open files with wrong credentials and one file that is no database; no test damages a stored byte.',
 [PK,CO,K3,K4],[('header SHA-256 and HMAC, block HMACs (KDBX4), block hashes, start bytes and header hash (KDBX3)',K4+', '+K3+', PyKeePass.read in '+PK)])
prop('C06','Only the credentials of the last successful save open a database',
 'A stored database opens with exactly the credentials (password, key file, both or neither, or the transformed key derived from them) in effect at the last successful save to that path; all others, however similar, are rejected with the credentials error and give access to no contents. Changing credentials on an open database affects the file only through a successful save, and saving or reloading without changing credentials keeps those the database was opened with, including when it was opened with a transformed key.',
 ['histories','inputs','fault_sequences'],'every history of credential changes, saves, failed saves and reloads; every password, every kind of key file; every wrong credential',
 'test_set_credentials never runs (its class is redefined); test_open_error tries seven fixed combinations; saving and reloading after opening with a transformed key is never followed by a check of what opens the file.',
 [PK,CO],[('composite key, KDF and credential check',CO+', '+K3+', '+K4),('remembered credentials','PyKeePass.read, reload, save in '+PK)])
prop('C07','A failed operation leaves the open database as it was',
 'If opening another file into a database object, reloading, saving, or an edit raises - because of an I/O error, a damaged or missing file, wrong credentials, or a value that is not accepted - the object keeps its contents, filename and credentials, and no entry, group, attachment, field or setting is lost or partly changed. Once the fault is gone the same operation succeeds with its full effect.',
 ['fault_sequences','histories','inputs'],'every failing operation at every failing step, in every history',
 'No test looks at the object after a failed read, reload or rejected value; I/O errors during reads are never injected.',
 [PK,EN,BE,AT],[('state assigned only after a complete read','PyKeePass.read in '+PK),('new element built before the old one is removed',EN+', '+BE)])
prop('C08','Attachments stay bound to their bytes',
 'Through any history of adding and deleting binaries and attachments, moving and deleting entries, saving history, saves, failed saves, reloads and restarts, every attachment of every entry and history entry keeps its name and its exact bytes until it or its binary is deleted. Deleting a binary removes exactly the attachments that refer to it, everywhere, and asking for a binary that does not exist changes nothing.',
 ['histories','inputs','fault_sequences','configurations'],'every history of attachment operations interleaved with saves, faults and reloads, in KDBX3 and KDBX4',
 'Tests delete one binary of at most three and check one reference; attachments of history entries and the stored binary IDs are never looked at.',
 [PK,AT,EN],[('positional binary ids, references renumbered on deletion','PyKeePass.add_binary, delete_binary, binaries in '+PK)])
prop('C09','Times are exact instants and expiry follows the clock',
 'Every time the library records on its own (creation, access, modification, credential change) is the instant of the system clock at that call, and every zone-aware time a caller sets reads back as the same instant to the second, before and after saving and reopening, whatever its UTC offset and the local time zone. An entry or group is expired exactly when it is set to expire and the clock is past its expiry time, and a credential change is required or recommended exactly when more whole days than configured have passed since the last one, also when the clock jumps forwards or backwards.',
 ['histories','schedules','inputs','configurations'],'every clock reading including jumps, every UTC offset and local time zone, every history of time settings and saves',
 'Tests use the real clock, one offset at creation time and TZ=UTC; they never move the clock or set a time with an offset on an existing entry.',
 [PK,BE],[('time encoding and decoding','PyKeePass._encode_time, _decode_time in '+PK),('expiry','BaseElement.expired in '+BE+'; credchange_* in '+PK)])
prop('C10','New entries and groups get unique identities whatever the clock does',
 'Every entry and group created in a database has a UUID different from that of every other entry and group created or loaded there before, even when the clock stands still, runs coarsely or jumps backwards between or across saves, reloads and restarts. The UUID of an existing entry or group never changes through moves, edits, saves or reloads unless the caller sets it, and a lookup by that UUID finds exactly that element.',
 ['histories','schedules'],'every sequence of clock readings and every history of creations, restarts and reloads',
 'Tests create a handful of entries under a well-behaved clock and never compare identities.',
 [BE,PK],[('UUID generation on creation','BaseElement.__init__ in '+BE)])
prop('C11','Nothing secret is stored in the clear and no key material is reused',
 'At no instant does opening, editing or saving a database write any of its contents, its password or its key material to storage in the clear, in the database file, a temporary file or anywhere else; inside the encrypted payload every field marked as protected is additionally encrypted. No two saves with different contents are ever encrypted with the same key and initialisation vector or the same inner key stream.',
 ['histories','crash_points','configurations'],'every byte written at every point of every history, every pair of saves',
 'Tests never look at the bytes that reach storage, at temporary files, or at two versions of the same file.',
 [PK,CO,K3,K4],[('payload and inner stream encryption',CO),('fresh seeds for each save','PyKeePass.save in '+PK)])
prop('C12','Streams and key file streams are complete or an error is raised',
 'When a database is read from or saved to a stream that transfers short, fails or ends early, opening returns only complete and verified contents and saving returns only after the stream has accepted the whole database at its current position; otherwise the call raises. Opening reads from the current position of the stream. A save that fails before the stream does leaves the stream unchanged. A key file given as a stream, also one that cannot be rewound, yields the same key in the open and every later save and reload.',
 ['fault_sequences','inputs','histories'],'every short transfer and every failure of every stream call, for database and key file streams',
 'Tests use well-behaved in-memory streams only, and the test of repeated saves with a key file stream never runs.',
 [PK,CO],[('stream handling in read and save','PyKeePass.read, save in '+PK),('key file reading','compute_key_composite in '+CO)])
prop('C13','Independent databases do not affect each other under any interleaving',
 'Database objects opened independently in one process can be opened, edited, searched, saved and reloaded by different threads, each object by one thread at a time, in any interleaving: each object and each file behaves exactly as if it were the only one. The same holds for objects used alternately by one thread.',
 ['schedules','histories'],'every interleaving, at every line of the library and every system call, of independent histories on several databases',
 'All tests are single threaded; every preemption point inside the library is unreachable for them.',
 [PK,CO,K3,K4,EN],[('no shared mutable state between database objects','pykeepass/*, module-level format definitions in kdbx_parsing/*')])
prop('C14','Editing and saving preserve everything they are not asked to change',
 'Whatever another program has stored in a database - unknown elements, attributes and settings, custom data and icons, deleted-object records, public header data, unusual element order - is still there with the same values after any history of edits, saves and reloads, except for what those edits change. Format version, cipher, compression, key derivation and its parameters stay as they were.',
 ['histories','inputs','configurations'],'every foreign content and configuration, every history of edits, saves, failed saves and reloads',
 'No test compares anything but the fields it sets; unknown content is never generated.',
 [PK,CO,K3,K4,EN,GR,BE],[('payload tree edited in place, headers kept','PyKeePass.save in '+PK+'; '+CO)])
prop('C15','Entry history is a faithful, unchanging record',
 'Saving the history of an entry adds exactly one history item equal to the entry at that moment, after the existing ones; no later edit, move, save, failed save, reload or restart changes, loses, duplicates or reorders history items unless the caller deletes them. Deleting one history item, or all of an entry, removes exactly those.',
 ['histories','fault_sequences'],'every history of edits, history saves, deletions, moves, saves, faults and reloads',
 'test_find_history_entries follows one fixed sequence in memory and never saves the database.',
 [EN],[('deep copy of the entry','Entry.save_history, delete_history in '+EN)])
prop('C16','Moving, trashing and deleting conserve everything else',
 'Moving or trashing an entry or group puts it, complete with all its contents and history, in exactly one place, the destination; deleting or emptying removes exactly the named element or contents; everything else stays where it was, and the database always remains one tree. The recycle bin is created at most once while it exists, is never moved into itself, and is found again after saves, failed saves, reloads and restarts.',
 ['histories','fault_sequences'],'every history of tree operations interleaved with saves, faults, reloads and restarts',
 'Tests perform one move or deletion each and check one or two elements in memory.',
 [PK,GR,BE],[('element move and removal','Group.append in '+GR+'; BaseElement.delete in '+BE),('recycle bin','trash_entry, trash_group, recyclebin_group in '+PK)])
prop('C17','A search returns exactly the elements that match',
 'A search for entries, groups or attachments returns exactly the elements under the given starting point that match all given criteria, in document order.',
 ['inputs'],'every tree and every combination of criteria','Tests try fixed queries on two fixed databases.',[PK,'pykeepass/xpath.py'],[('query construction','PyKeePass._find in '+PK)])
prop('C18','A field reference resolves to the referenced field',
 'Resolving a value replaces every field reference in it by the referenced field of the referenced entry, recursively, and yields nothing if a referenced entry does not exist.',
 ['inputs'],'every value and every set of entries','Tests resolve a handful of references.',[PK],[('reference expansion','PyKeePass.deref in '+PK)])
prop('C19','Ciphers and key derivation functions compute the published functions',
 'The bundled block cipher and the key derivation compute the published functions for every key and every message.',
 ['inputs'],'every key and message','Tests open one database per algorithm.',['pykeepass/kdbx_parsing/twofish.py','pykeepass/kdbx_parsing/pytwofish.py',CO],[('Twofish','pykeepass/kdbx_parsing/pytwofish.py')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
