#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m) for n,m in state]
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title)); P.append(d)

TOCH="src/fdb5/toc/TocHandler.cc"; TOCW="src/fdb5/toc/TocCatalogueWriter.cc"; TOCS="src/fdb5/toc/TocStore.cc"
prop("C01","Flushed fields survive process crashes and power loss",
 "Once flush() has returned normally, every field archived before it through that FDB object is listed and retrievable byte-for-byte by any process started later, whatever crashes afterwards: the writing process killed at any point, or the whole machine losing power with only synchronised storage surviving. A crash never makes previously flushed fields of the same or another database unreadable, and never makes a later writer or reader of the database fail.",
 ["crash_points","histories","schedules"],
 "every sequence of archive and flush calls over any keys, every crash point of the writing process or machine, every choice the storage makes about which unsynchronised writes survive",
 "unit tests run archive/flush/retrieve in one process that never dies; no test stops a writer between two system calls or drops unsynchronised writes",
 ["src/fdb5/database/Archiver.cc",TOCS,TOCH,TOCW,"src/fdb5/io/FDBFileHandle.cc","src/fdb5/toc/TocIndex.cc"],
 [("data file flushed and synchronised before the catalogue refers to it","src/fdb5/database/Archiver.cc Archiver::flushDatabase; TocStore::flush; FDBFileHandle::flush"),
  ("index B-tree synchronised before the TOC record that publishes it","TocCatalogueWriter::flush -> TocIndex::flush -> TocHandler::writeIndexRecord"),
  ("TOC appended with O_APPEND in one write and synchronised on close","TocHandler::append / appendRound / close")],
 [("data file","field bytes, append only"),("index file","B-tree from key to location"),("toc","append-only log of records that publishes indexes")],
 ["FDB::flush return","FDB::list and FDB::retrieve in a fresh process"])
prop("C02","Storage errors are reported, never turned into silent loss",
 "If a storage operation fails (I/O error, full disk, short or interrupted write, failed synchronisation), then either the failing archive()/flush() reports it to the caller, or the fields it covered are nevertheless complete and retrievable. In no case does the database later serve wrong or truncated bytes, and fields flushed earlier stay intact; likewise a read error during list or retrieve is reported instead of yielding missing fields or altered bytes.",
 ["fault_sequences","histories"],
 "every choice of system calls made by archive, flush, list and retrieve to fail or to complete partially, over every sequence of operations before and after",
 "existing tests only run on a healthy file system; error branches of write, fdatasync, open, read and rename are never reached",
 ["src/fdb5/io/FDBFileHandle.cc",TOCS,TOCH,"src/fdb5/toc/TocIndex.cc","src/fdb5/database/Archiver.cc"],
 [("error checks on buffered writes, flush and synchronise","FDBFileHandle::write/flush/close"),("error checks on toc append and read","TocHandler::append, TocHandler::readNext")],
 None,["exceptions leaving FDB::archive / FDB::flush / FDB::retrieve","bytes returned afterwards"])
prop("C03","Readers beside active writers see only whole, committed fields",
 "A process that lists, inspects or retrieves while other processes are archiving and flushing the same database never fails because of them, never returns bytes that are not exactly those of one archived version of the requested field, and always sees every field whose flush() returned before the read began (for retrieve and inspect: before that FDB object first read from the database, whose indexes it keeps loaded). Data archived but not yet flushed may be absent but is never returned partially.",
 ["schedules","crash_points","histories"],
 "every interleaving of readers and writers at system-call granularity, including writers killed part-way, over any keys",
 "the concurrency tests run a handful of writers and read after they finish; none reads while a writer is between two writes",
 [TOCH,TOCW,"src/fdb5/toc/TocCatalogueReader.cc","src/fdb5/toc/TocIndex.cc","src/fdb5/database/Inspector.cc"],
 [("publication order data, index, toc record","Archiver::flushDatabase, TocCatalogueWriter::flush"),("reader takes a snapshot of the toc and ignores an unfinished tail","TocHandler::openForRead / readNext")],
 None,["FDB::list / inspect / retrieve results in the reading process"])
prop("C04","Concurrent writers never lose or damage each other's fields",
 "When several processes create, archive into and flush the same databases at the same time, every field whose flush() returned is afterwards listed and retrievable with the bytes its writer gave, and no writer fails because of another's activity, including when they race to create the database or one of them is killed.",
 ["schedules","crash_points","histories"],
 "every interleaving of two or more writing processes on overlapping databases, including simultaneous first use and a writer killed at any point",
 "test_process/test_thread run free-running writers a few times; the race windows at creation and in toc append are a few system calls wide",
 [TOCH,TOCW,TOCS],
 [("atomic append of toc records","TocHandler::append (O_APPEND, rounded record)"),("idempotent racing initialisation","TocHandler::writeInitRecord"),("unique file names per process","TocStore::generateDataPath, TocHandler index paths")],
 None,["FDB::list and retrieve after the writers return"])
prop("C05","The most recently flushed version of a field is the one returned",
 "If a field is archived and flushed again under the same key (by the same process or by another that starts its archive after the earlier flush returned), retrieve (through an FDB object that had not already loaded the database) and a de-duplicated list return only the newer version, while a full list shows every version not yet purged. Order of versions is the order of the flushes, and archiving a key twice before one flush yields the second.",
 ["histories","schedules"],
 "every history of archives, re-archives, flushes and process restarts over any keys and any number of indexes, including many index and toc entries",
 "tests overwrite one field once; the relative order of indexes, sub-tocs, in-memory entries and masks depends on the history",
 [TOCH,"src/fdb5/toc/TocCatalogueReader.cc",TOCW,"src/fdb5/api/helpers/ListIterator.h","src/fdb5/database/Inspector.cc"],
 [("indexes searched newest first","TocHandler::loadIndexes (reverse order)"),("duplicate filter of listings","ListIterator / DedupPolicy")],
 None,["FDB::retrieve bytes; FDB::list with and without de-duplication"])
prop("C06","Listing returns exactly the stored fields that match the request",
 "list() of any request returns one element for each stored, unmasked field whose keys match it, no element for any other field and none twice, with the correct key, length and a location from which precisely that field's bytes can be read; retrieve() of the same request returns the concatenation of those fields. The result does not depend on how the fields were spread over processes, flushes, indexes, roots, threads or caches.",
 ["inputs","histories","configurations"],
 "every request (full, partial, multi-valued, absent values) over every history of flushes, and every list depth and loading configuration",
 "tests check a few requests over a few fields; pruning by axes, index caching and threaded index loading depend on the history",
 ["src/fdb5/database/EntryVisitMechanism.cc","src/fdb5/database/IndexAxis.cc","src/fdb5/api/local/ListVisitor.cc","src/fdb5/rules/Rule.cc","src/fdb5/database/MultiRetrieveVisitor.cc","src/fdb5/toc/TocCatalogueReader.cc"],
 [("axes prune indexes that cannot match","Index::partialMatch / mayContain, IndexAxis"),("schema walk builds keys level by level","Rule.cc, Schema.cc")],
 None,["elements of the list iterator; bytes read from their locations"])
prop("C07","Sub-TOC mode is indistinguishable from direct mode to users",
 "With sub-tocs enabled for some or all writers of a database, all guarantees on flushed fields (durability, visibility to concurrent readers, newest version wins, exact listing) hold as they do without: at flush, while the writer lives, after it closes and consolidates its indexes, and after it is killed at any point before, during or after that consolidation. Each flushed version is listed exactly as often as in direct mode's result for the retrievable (de-duplicated) view.",
 ["crash_points","schedules","histories","configurations"],
 "every mix of writers with and without sub-tocs, every crash point including during consolidation, every concurrent reader",
 "sub-toc tests run one writer to completion in one process",
 [TOCH,TOCW],
 [("index consolidation and masking of the sub-toc in one append","TocCatalogueWriter::compactSubTocIndexes, TocHandler::writeSubTocMaskRecord")],
 None,["FDB::list / retrieve"])
prop("C08","Purge removes only superseded data and survives interruption",
 "purge() deletes data, index and other files only when every field in them is superseded by a newer visible version: before, during and after it, including when it is killed at any point or hits storage errors, every visible field stays retrievable with its newest bytes, data not owned by the database is never deleted, and a dry run changes nothing. Running purge again completes the work and a further run finds nothing to do.",
 ["crash_points","fault_sequences","histories"],
 "every history of (partial) overwrites, masks and flush groupings, every crash point and storage error during purge",
 "tests purge a fixed two-step history to completion",
 ["src/fdb5/toc/TocPurgeVisitor.cc","src/fdb5/toc/TocStats.cc","src/fdb5/api/local/PurgeVisitor.cc",TOCH],
 [("mask indexes in the toc before deleting their files","TocPurgeVisitor::purge"),("count of duplicates per index and reference count per data file","TocStatsReportVisitor")],
 None,["FDB::list/retrieve and the set of files after purge"])
prop("C09","Wipe removes what was asked for and nothing else",
 "After a completed wipe(doit) no field of the matched databases or indexes is listed or retrievable and their files are gone, while every field, database and file outside the request is untouched, as is everything when it is a dry run or refuses to run (unknown files present without the unsafe option, wiping locked). Nothing outside the database directories is ever removed and a database can be created anew afterwards.",
 ["histories","inputs","configurations"],
 "every history of flushes before the wipe, every request at database or index level, with or without sub-tocs, foreign files and locks",
 "the wipe tests need downloaded data or check one fixed layout",
 ["src/fdb5/database/WipeCoordinator.cc","src/fdb5/database/WipeState.cc","src/fdb5/api/local/WipeVisitor.cc","src/fdb5/toc/TocCatalogue.cc",TOCS],
 [("classification of files as delete, safe or unknown","CatalogueWipeState/StoreWipeState, TocCatalogue::wipe*, TocStore::finaliseWipeState"),("mask before delete","WipeCoordinator::doWipeURIs")],
 None,["FDB::list; directory contents"])
prop("C10","An interrupted or failing wipe is safe and can be completed",
 "If a wipe is killed at any point or meets storage errors, fields outside the request remain retrievable (once the locks a killed wipe placed on the database are released), fields inside the request are each either intact or gone but never returned with wrong bytes, and running the wipe again (with the unsafe option where leftovers are reported) completes it so that no field, data, index or toc file of the request is left and the database can be re-created. A wipe that refuses without deleting leaves archiving, listing and retrieving enabled as before.",
 ["crash_points","fault_sequences","histories"],
 "every crash point and storage error during a wipe over every prior history",
 "no test interrupts a wipe",
 ["src/fdb5/database/WipeCoordinator.cc","src/fdb5/api/local/WipeVisitor.cc","src/fdb5/toc/TocCatalogue.cc",TOCS],
 [("order mask, data, index, toc","WipeCoordinator::doWipeURIs, TocCatalogue::doWipeURIs"),("restore of control state","RestoreControlStateOnExit")],
 None,["FDB::list/retrieve after restart, second wipe"])
prop("C11","Control settings take effect, persist and stay within their database",
 "Disabling archive, retrieve, list or wipe on a database makes that operation on that database be refused or skipped for every process that opens it later, until it is enabled again; other operations and other databases are unaffected and no data is changed. Repeating or reverting a setting is harmless, also when processes do so concurrently or are killed.",
 ["histories","schedules","crash_points"],
 "every sequence of disable/enable actions interleaved with other operations by any processes",
 "tests toggle one lock in one process",
 ["src/fdb5/api/local/ControlVisitor.cc",TOCH,"src/fdb5/toc/TocCatalogue.cc","src/fdb5/database/EntryVisitMechanism.cc"],
 [("lock files per control identifier","TocHandler::control / enabled")],
 None,["outcome of archive/list/retrieve/wipe in later processes"])
prop("C12","One process's threads can use FDB objects concurrently",
 "Threads of one process that archive, flush, list and retrieve concurrently, sharing one FDB object or using one each, get the same results as some sequential order of those calls: no field is lost or mixed up, a flush covers every archive that returned before it on that object, and no call fails, deadlocks or crashes because of another.",
 ["schedules"],
 "every interleaving of the threads at synchronisation operations, system calls and (sampled) between basic blocks",
 "test_thread lets the operating system pick a few schedules",
 ["src/fdb5/api/FDB.cc","src/fdb5/database/Archiver.cc","src/fdb5/api/LocalFDB.cc",TOCH,"src/fdb5/toc/RootManager.cc","src/fdb5/database/Catalogue.cc"],
 [("locks in Archiver, FDB and the shared registries","Archiver::archive/flush, FDB::flush, factories, schema registry")],
 None,["results of the calls; list/retrieve afterwards"])
prop("C13","A remote flush that succeeds makes the fields durable and retrievable",
 "When a client of FDB servers archives fields and flush() returns normally, every one of those fields is listed and retrievable byte-for-byte through the servers and locally, whatever connection resets, stalls, delays, and client or server crashes happen before or after. If the servers or the network fail so that this cannot be ensured, archive(), flush() or a later call of that client reports an error.",
 ["fault_sequences","schedules","crash_points"],
 "every interleaving of client, catalogue and store servers and every sequence of connection faults, delays and crashes",
 "the remote tests run one healthy server on loopback",
 ["src/fdb5/remote/client/RemoteStore.cc","src/fdb5/remote/client/RemoteCatalogue.cc","src/fdb5/remote/client/ClientConnection.cc","src/fdb5/remote/server/StoreHandler.cc","src/fdb5/remote/server/CatalogueHandler.cc","src/fdb5/remote/server/ServerConnection.cc"],
 [("archived-field counts checked at flush by store and catalogue","RemoteStore::flush, RemoteCatalogue::flush, ServerConnection flush handling"),("locations delivered before catalogue entry","RemoteStore archive callbacks")],
 None,["FDB::flush on the client; FDB::list/retrieve afterwards"])
prop("C14","Remote requests receive their own complete answers",
 "Each list, inspect, retrieve or read sent to FDB servers by any number of clients and threads at once, sharing connections or not, returns exactly what the same call would return locally: no element or byte of another request's answer, nothing missing or repeated; a fault in between yields an error, never a shortened or altered answer presented as complete.",
 ["schedules","fault_sequences","inputs"],
 "every interleaving of concurrent requests over shared connections, any chunking of the streams, and connection faults",
 "tests issue one request at a time over loopback, where reads are rarely split",
 ["src/fdb5/remote/Connection.cc","src/fdb5/remote/client/ClientConnection.cc","src/fdb5/remote/client/RemoteStore.cc","src/fdb5/remote/client/ReadLimiter.cc","src/fdb5/api/RemoteFDB.cc","src/fdb5/remote/server/ServerConnection.cc"],
 [("routing by client and request id","ClientConnection::listeningDataThreadLoop, Client::handle"),("message framing","Connection::writeMessage/readUnsafe")],
 None,["elements and bytes returned to each caller"])
prop("C15","Remote calls end in bounded time even when the peer fails",
 "If a server dies, resets or closes the connection, or cannot be reached, every pending and later call of the affected client ends in bounded time with a result or an error rather than waiting forever, and the client can be destroyed; servers go on serving other and new clients after any client disappears. Once faults have ceased, new clients succeed.",
 ["fault_sequences","schedules"],
 "every point at which a connection is reset or closed or a peer process dies, relative to every pending call",
 "no test kills a peer during a call",
 ["src/fdb5/remote/client/ClientConnection.cc","src/fdb5/remote/client/ClientConnectionRouter.cc","src/fdb5/remote/client/RemoteStore.cc","src/fdb5/remote/client/Locations.h","src/fdb5/remote/server/ServerConnection.cc","src/fdb5/remote/FdbServer.cc"],
 [("pending requests failed when the connection breaks","ClientConnection::handleConnectionError/failPendingRequests"),("server handler exits on end of stream","ServerConnection::listeningThreadLoop")],
 None,["return or exception of each client call within simulated time"])
prop("C16","Fields go to, and are found in, the store chosen by configuration",
 "With several lanes (select), roots or file spaces configured, each field is archived in exactly the place its key selects, and list and retrieve over the whole configuration return precisely the union of what the parts hold, each field once, also after roots are full, closed to writing or reordered, and after processes restart.",
 ["configurations","histories","inputs"],
 "every assignment of keys to lanes and roots and every history of archives with several processes",
 "tests use one or two fixed configurations",
 ["src/fdb5/api/SelectFDB.cc","src/fdb5/api/DistFDB.cc","src/fdb5/toc/RootManager.cc","src/fdb5/toc/FileSpace.cc","src/fdb5/toc/FileSpaceHandler.cc"],
 [("lane selection by key or request","SelectFDB::archive / queryInternal"),("root chosen for a new database, existing database found again","FileSpace::filesystem, CatalogueRootManager::directory")],
 None,["location of each field; list over all lanes"])
prop("C17","Moving a database never loses data",
 "A move of a database to another root, whether it completes, fails, or is killed at any point, leaves every flushed field retrievable with its bytes from the source or the destination; while it runs writers are kept out, and after completion and removal of the source the destination alone serves everything the source did.",
 ["crash_points","fault_sequences","histories"],
 "every crash point and storage error during a move over every prior history",
 "one script test moves one small database to completion",
 ["src/fdb5/toc/TocMoveVisitor.cc","src/fdb5/api/local/MoveVisitor.cc","src/fdb5/toc/TocStore.cc","src/fdb5/toc/TocCatalogue.cc"],
 [("source locked before copying; toc copied last","TocMoveVisitor::visitDatabase/move")],
 None,["FDB::list/retrieve on source and destination"])
prop("C18","DAOS back end: flushed fields are visible and isolated",
 "With the DAOS back end, fields archived and flushed by concurrent processes are listed and retrievable with their bytes by any later or concurrent process, the newest version wins, and a killed writer leaves the database readable and writable.",
 ["schedules","crash_points","histories"],
 "every interleaving and crash point of writers and readers over the DAOS client API",
 "DAOS tests run single-process",
 ["src/fdb5/daos/DaosCatalogueWriter.cc","src/fdb5/daos/DaosStore.cc","src/fdb5/daos/DaosCatalogueReader.cc","src/dummy_daos/daos.cc"],
 [("index key written after data object","DaosCatalogueWriter::archive, DaosStore::archive")],
 None,["FDB::list/retrieve"])
prop("C19","Hide, overlay and reconsolidation preserve the visible view",
 "Reconsolidating a database (also when killed part-way or run beside readers) leaves the de-duplicated view of keys and bytes unchanged; overlaying one database on another shows the underlying fields under the changed keys with newer local fields on top and never alters or deletes the underlying database; hiding makes all current fields of the database invisible and nothing else.",
 ["crash_points","schedules","histories"],
 "every prior history, crash point and concurrent reader",
 "one script test covers one overlay",
 [TOCW,TOCH],
 [("reconsolidation writes new indexes then masks old ones","TocCatalogueWriter::reconsolidateIndexesAndTocs"),("overlay record","TocCatalogueWriter::overlayDB"),("hide record","TocCatalogueWriter::hideContents")],
 None,["FDB::list/retrieve"])
prop("C20","A database is governed by the schema it was created with",
 "After a database exists, processes configured with a changed schema file still archive into, list and retrieve from it by the schema stored when it was created; fields flushed under the old schema stay retrievable and no field is indexed under keys from a different schema.",
 ["histories","configurations","schedules"],
 "every order of schema changes and processes",
 "tests use one schema per run",
 [TOCH,"src/fdb5/toc/TocCatalogue.cc","src/fdb5/rules/Schema.cc"],
 [("schema copied into the database at creation","TocHandler::writeInitRecord; TocCatalogue::loadSchema")],
 None,["keys listed; bytes retrieved"])
prop("C21","Type canonicalisation maps equal values to one key",
 "Values that denote the same thing for a typed key (dates, times, steps, doubles) are canonicalised to one representation in archive and request.",
 ["inputs"],"every value accepted by each type","types are tested with samples",
 ["src/fdb5/types/Type.cc","src/fdb5/types/TypesFactory.cc"],[("toKey/expand","src/fdb5/types/*")])
prop("C22","Serialised keys, locations and statistics decode to what was encoded",
 "Every key, field location, list element, axis and statistic decodes from its stream form to an equal object in every supported serialisation version.",
 ["inputs"],"every value and version","round trips tested with samples",
 ["src/fdb5/database/Key.cc","src/fdb5/database/IndexAxis.cc","src/fdb5/database/FieldLocation.cc"],[("encode/decode pairs","src/fdb5/database/*")])
prop("C23","Chunked array views return the field values they index",
 "Reading any chunk of a view built over retrieved GRIB fields gives the values of precisely the fields its axes name.",
 ["inputs"],"every view and chunk index","a few shapes tested",
 ["src/chunked_data_view"],[("axis to request mapping","src/chunked_data_view")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
prop("C24","A wipe through servers removes what was asked for on every server",
 "A client that wipes through a catalogue server and its store servers removes precisely the fields of the databases or indexes its request names: afterwards no client lists or retrieves one, every other field keeps its bytes on every store, and a wiped whole database leaves no file on any server. A dry wipe changes nothing anywhere. If the client, a connection or a server fails meanwhile, unnamed fields are untouched, no field is ever served with other bytes, and once servers are back and locks lifted the wipe can be repeated to the end or is refused with an error; the database can then be written again.",
 ["fault_sequences","crash_points","schedules","histories"],
 "every content of the stores, request, deployment, and every point at which the client, a connection or a server fails",
 "tests of remote wipes run one healthy deployment over one database",
 ["src/fdb5/database/WipeCoordinator.cc","src/fdb5/database/WipeState.cc","src/fdb5/remote/server/CatalogueHandler.cc","src/fdb5/remote/server/StoreHandler.cc","src/fdb5/remote/client/RemoteStore.cc","src/fdb5/remote/client/RemoteCatalogue.cc"],
 [("the coordinator distributes what each store removes, masks the catalogue first","WipeCoordinator::wipe, doWipeURIs"),("servers act only on a signed state they recorded","StoreHandler::wipe*, CatalogueHandler::wipe*, WipeState signatures")],
 None,["file trees of the servers","FDB::list/retrieve by any client"])
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
