#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to maintain)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
        "mechanism": [dict(name=a, where=b) for a, b in mechanism],
        "observe_at": observe or ["exit status, stdout/stderr and the files written by the mairix process"],
        "hook_needed": None}})

prop("C01", "Word, boolean, path and message-ID searches return exactly the matches",
 "After indexing, a search returns every live message that satisfies the query and no other: a word matches case-insensitively as a whole word (letters, digits, underscore; in To/Cc/From also whole addresses) in the fields selected before the colon (t c f s b, a, r, n, or To/Cc/From/Subject/Body by default), '/' is OR, ',' binds tighter as AND, '~' negates, separate arguments are ANDed. m: matches the message's own Message-ID whatever else refers to that ID, and p: matches a substring of the message's path. The answer is independent of how many messages or distinct words are indexed, the order of folders, and the hash key.",
 ["inputs", "configurations"], "every mail collection (maildir, MH, mbox, any size) and every query of this grammar",
 "The 20-odd search specs run about 60 fixed queries over 6-20 fixed messages; they cannot cover the product of field subsets, boolean structure, vocabulary collisions, table growth and posting-list encodings (gaps over 127 and 16383).",
 ["search.c", "db.c", "tok.c", "hash.c", "reader.c", "writer.c"],
 [("do_search boolean combination hit0..hit3", "search.c:do_search"), ("match_string_in_table / match_string_in_table2", "search.c"), ("tokenise_message", "db.c"), ("insert_index_on_encoding / int_list_reader_read", "tok.c, reader.c")],
 [("token tables", "per-field word -> ascending list of message indices", "tok.c, db.c")],
 ["-r (raw) output of a search, compared with a reference evaluator over the generated mail"])

prop("C02", "Approximate and substring searches match exactly within the error budget",
 "A term 'str=' matches exactly the words that contain str, '^str=' those that start with it, and 'str=N' those that contain some substring within N insertions, deletions or substitutions of str, for every str of 1 to 31 characters, in every selected field and (case-sensitively) in paths with p:. Longer strings are refused with an error and never answered.",
 ["inputs"], "every term of 1..31 characters, every error budget, every indexed vocabulary and path set",
 "Existing specs try a handful of terms with 0-2 errors; the bit-parallel matcher has separate code for 0,1,2,3 and general error counts and behaviour at lengths 30-32.",
 ["search.c"],
 [("substring_match_0/1/2/3/general bit-parallel matchers", "search.c"), ("build_match_vector length limit", "search.c:build_match_vector"), ("match_substring_in_table / match_substring_in_table2 / match_substring_in_paths", "search.c")])

prop("C03", "Date, size and flag terms select exactly the stated range or state",
 "d: selects messages whose Date: day lies after the start day and up to and including the end day (a single period selects all its days; open ends are unbounded; reversed bounds are swapped; two- and four-digit years, day/month/year in every documented notation and relative d/w/m/y offsets denote the documented day). z: selects sizes strictly between the bounds with k/M suffixes, or smaller than a bare size. F: selects messages whose seen/replied/flagged state matches every listed letter, negated by '-', where state comes from the maildir filename flags or the mbox Status/X-Status headers as of the last index run.",
 ["inputs", "configurations"], "every documented date notation at every current date, every size, every flag set and storage format",
 "The specs fix one dozen absolute dates and sizes and never exercise relative dates, month/day shorthands (which depend on today's date), single periods, year inference or mbox flags.",
 ["dates.c", "datescan.nfa", "search.c", "rfc822.c", "db.c"],
 [("scan_date_string / scan_date_expr", "dates.c"), ("find_date_matches_in_table, find_size_matches_in_table, find_flag_matches_in_table, parse_size_expr", "search.c"), ("parse_rfc822_date, scan_status_flags", "rfc822.c"), ("msg flags from maildir names", "db.c:maildir flags scan")])

prop("C04", "Thread search returns the whole thread of every match and nothing else",
 "With -t the result is exactly the set of live messages connected to a live match through shared message-IDs (own Message-ID, In-Reply-To, References, transitively, across folders and formats, whichever message was indexed first and whether or not intermediate messages exist; removed messages may go on connecting others until they are purged). This holds after any sequence of incremental updates, removals and purges.",
 ["inputs", "histories"], "every reference graph and every order/history in which its messages are indexed, removed and purged",
 "One spec with one fixed thread indexed in one go; incremental arrival orders, purges and overlapping reference chains are never run.",
 ["db.c", "search.c", "reader.c"],
 [("compute_threads / find_threading", "db.c"), ("show_threads expansion", "search.c:do_search"), ("cull_dead_messages", "db.c")],
 [("tid", "thread id per message", "db.c")])

prop("C05", "Incremental indexing is equivalent to indexing from scratch",
 "After any history of adding, removing, rewriting, renaming and moving mail (files in maildir/MH folders, messages appended to, inserted in, removed from or rewritten within mboxes, whole folders added or dropped), running the indexer yields a database on which every search gives the same live results as a database built from scratch over the same mail. Re-indexing unchanged mail changes no answer; every change is assumed to alter the file's size or modification time.",
 ["histories", "inputs"], "every finite history of mail changes interleaved with indexing runs (changes advance the file's mtime or size as a delivery agent would)",
 "The specs do one add and one remove step; interactions of index runs with mbox re-validation, dead entries, renamed maildir flags and posting lists re-imported from disk need multi-step histories.",
 ["db.c", "mbox.c", "reader.c", "writer.c", "mairix.c"],
 [("update_database (mtime/size diff of file messages, rename of flags)", "db.c"), ("build_mbox_lists / binary chop over checksums", "mbox.c"), ("new_database_from_file import", "db.c"), ("maybe_grow_message_arrays", "db.c")],
 [("dead marks, msgs[], mboxen[]", "what the database believes is on disk", "db.c, mbox.c")])

prop("C06", "Removed messages stop matching; purging drops only them",
 "Once the indexer has run after messages disappeared, no search returns them even without -p, and every other message is still found by the same queries. Indexing with -p physically drops exactly the dead entries: every query returns the same result before and after, further updates keep working, and purging twice equals purging once.",
 ["histories", "inputs"], "every set of removals in every storage format, followed by purges, updates and re-additions in any order",
 "Three specs purge one fixed removal each and compare a dump; they never search, thread, update or purge again afterwards.",
 ["db.c", "mbox.c", "search.c"],
 [("cull_dead_messages, recode_toktable, recode_encoding", "db.c"), ("cull_dead_mboxen, msg/mbox index remapping", "mbox.c"), ("DB_MSG_DEAD filter", "search.c:do_search")])

prop("C07", "Source mail is never modified, and never overwritten by a result folder",
 "No index, purge, search or dump run creates, deletes, renames, truncates or changes the contents of anything in the indexed folders; all writing is confined to the database, its lock files and the result folder. A result folder that is itself one of the indexed folders (by any spelling, symlink or hard link, for maildir, MH, mbox or IMAP results), or a place in one where its messages live (cur, new, tmp, a message), is refused with an error before anything in it is touched.",
 ["inputs", "configurations", "histories"], "every configuration of folders, result folder and format, every run mode including -a, -H and repeated searches",
 "No existing test compares source folders before and after, or points the result folder at a source.",
 ["mairix.c", "search.c", "dirscan.c", "mbox.c"],
 [("member_of / inode comparison of mfolder with folder lists", "mairix.c"), ("create_symlink/create hard link instead of copying", "search.c"), ("read-only mappings of mail", "rfc822.c:create_ro_mapping")],
 None, ["full content+metadata snapshot of the source tree before/after; strace of write-side system calls"])

prop("C08", "The result folder contains exactly the matches, in the chosen format",
 "After a search, the maildir, MH or mbox result folder holds one entry per match: a symlink (or with -H a hard link) to the message for file messages, and a copy whose bytes equal the original message plus the source-folder header for mbox messages (mbox results: copies of all), with seen/replied/flagged state carried over in maildir results and, with sort=date+, in ascending date order in MH, mbox, raw and excerpt results. The folder is cleared first unless -a is given; with -a nothing already there is lost or altered and repeated results do not overwrite anything; raw and excerpt modes list the same matches and leave the result folder alone. The reported count and exit status (0 matches, 1 none) agree with the set.",
 ["inputs", "configurations", "histories"], "every match set, source format and result format, clearing and augmenting in any sequence",
 "Three specs check one search each per format; augment mode, hard links, sorting, mixed sources, flags and excerpt/raw agreement are not tested.",
 ["search.c", "dirscan.c", "mairix.c"],
 [("clear_maildir_subfolder, clear_mh_folder, clear_mbox_folder", "search.c"), ("create_symlink, mbox_copy, append_*_to_mbox, mk_maildir_path, mk_mh_path", "search.c"), ("qsort by date", "search.c")])

prop("C09", "A stale mbox message is never delivered as a match",
 "If an mbox has changed since it was indexed, so that the indexed byte range no longer holds the indexed message, a search never delivers those bytes into the result folder in any format: that entry is skipped and a warning to re-run the indexer is printed, while matches whose bytes are intact are still delivered. The warning appears whenever a matched mbox message is stale or gone, and never when all matched messages are intact.",
 ["histories", "inputs"], "every modification (rewrite, shift, truncation, replacement, deletion, recompression) of an mbox between indexing and searching",
 "No existing test modifies an mbox between indexing and searching.",
 ["search.c", "mbox.c", "md5.c", "rfc822.c"],
 [("get_validated_mbox_msg / verify checksum before output", "search.c, mbox.c"), ("had_failed_checksum warning", "search.c")])

prop("C10", "Only one process at a time uses a database; locks are released",
 "Two mairix processes never access the same database at the same time: a process that finds it locked exits with an error without touching database or result folder, and no process that failed to obtain the lock ever removes another's lock. The lock is released on every exit path, including errors and SIGHUP/SIGINT/SIGQUIT/SIGTERM. --unlock removes a stale lock so that work can resume.",
 ["schedules", "crash_points", "fault_sequences"], "every interleaving of concurrent index/search/dump processes, signals at any point, error exits",
 "No existing test runs two processes concurrently, sends a signal or fails mid-run.",
 ["dotlock.c", "mairix.c"],
 [("lock_database by link(2)", "dotlock.c"), ("unlock_and_exit, handlers", "dotlock.c, mairix.c")],
 [("<database>.lock", "exists exactly while one process owns the database", "dotlock.c")],
 ["system-call trace (LD_PRELOAD log) of link/unlink/open on the lock and database files, merged over processes"])

prop("C11", "Any mail, query or configuration is handled without memory errors",
 "For every content of mail files and mboxes (malformed headers, MIME, encodings, truncated or corrupt compressed files), every search argument and every rc file, mairix performs no out-of-bounds or use-after-free access, no use of uninitialised data, no undefined arithmetic and no assertion failure, and does not hang. It ends normally or with its own error exit.",
 ["inputs", "histories", "fault_sequences"], "every byte string as message, mbox, compressed mbox, search argument or rc file, and every operation sequence",
 "Tests run on well-formed mail without instrumentation; over-reads at page ends or uninitialised fields do not show up in them.",
 ["rfc822.c", "nvp.c", "mbox.c", "db.c", "search.c", "reader.c", "glob.c", "dates.c", "expandstr.c", "mairix.c", "xzfile.c", "dotlock.c"],
 [("bounded header/body parsing over a mapping", "rfc822.c"), ("nvp scanner", "nvp.c"), ("boundary and from-line scanners", "mbox.c")],
 None, ["AddressSanitizer/UndefinedBehaviorSanitizer reports, valgrind memcheck, assertion aborts, exit status, MALLOC_PERTURB_ differential"])

prop("C12", "MIME text is indexed as the words a reader sees",
 "Words of text/plain and text/html parts (markup excluded) and of the indexed headers are searchable whatever the transfer encoding (7bit/8bit/binary, base64, quoted-printable, uuencode), RFC 2047 encoded words, header folding, nesting of multiparts and forwarded message/rfc822, line-break placement or header order; text of other part types is not indexed as body words. Names of attachments (parts marked so) given by Content-Disposition filename (plain, quoted, RFC 2231 split or percent-encoded) or, where there is none, by Content-Type name are searchable with n:.",
 ["inputs"], "every well-formed MIME encoding of the same content",
 "One oddcases dump and one attachments spec fix a dozen messages; equivalence across encodings, splits and nestings is unbounded.",
 ["rfc822.c", "nvp.c", "nvp.nfa", "db.c"],
 [("unencode_data (base64, QP, uuencode)", "rfc822.c"), ("decode_header_value / mangle_encoded_words", "rfc822.c"), ("do_multipart, do_body, do_attachment", "rfc822.c"), ("make_nvp, RFC2231 handling", "nvp.c"), ("tokenise_html_string", "db.c")])

prop("C13", "Every mbox message is found once, with its exact extent",
 "In an mbox (From_ or MMDF separated, plain or gzip/bzip2/xz compressed, one stream or several) every message is indexed exactly once and its recorded extent is exactly the message's bytes. Separators are recognised in all their standard date forms, body lines that merely start with 'From ' or occur inside MIME parts do not split a message, and plain and compressed copies of a folder give identical answers.",
 ["inputs", "configurations"], "every sequence of well-formed messages, separator form, blank-line and size layout, compressed or not",
 "Specs index five small mboxes; message counts, separator variants, page/8 MiB boundaries and embedded From_ lines vary without bound.",
 ["mbox.c", "fromcheck.nfa", "from.h", "rfc822.c", "xzfile.c"],
 [("is_from_line / fromcheck scanner", "mbox.c, fromcheck.nfa"), ("add_mbox_messages, find_number_intact", "mbox.c"), ("create_ro_mapping decompression and cache", "rfc822.c, xzfile.c")])

prop("C14", "Exactly the configured folders are indexed",
 "The messages indexed are exactly those in the folders named by maildir=, mh= and mbox= (colon-separated, repeated lines, absolute or relative to base, shell-style wildcards *, ?, [..], '...' recursion into sub-folders) minus those matching omit=, in layouts each format recognises (files in cur/new of a maildir, numeric MH files, regular mbox files, mbox symlinks only when followed). Subdirectories, files outside cur/new and MH files with non-numeric names are never indexed. No message is indexed twice under one name, however many patterns reach its folder (different spellings of a folder's path count as different folders).",
 ["configurations", "inputs"], "every directory tree and folder specification",
 "Specs use one or two literal folder names; wildcards, recursion, omits and overlaps are not tested.",
 ["dirscan.c", "glob.c", "mbox.c", "mairix.c", "expandstr.c"],
 [("get_folder_paths, handle_wild / handle_folder recursion, filter_maildir/filter_mh", "dirscan.c"), ("make_globber / is_glob_match, split_on_colons", "glob.c"), ("glob_and_expand_paths, omit globs", "mbox.c, dirscan.c")])

prop("C15", "The database file is always internally consistent and reproducible",
 "After every successful index or purge run the database file is a well-formed index: every offset and count lies inside the file, every word occurs once per field table, every posting list is strictly ascending and names existing messages, and per-message path, size, mtime, date, flags and mbox extents and checksums equal the mail on disk. The decoded content does not depend on the hash key, on uninitialised memory or on whether it was reached by reload and rewrite. A file that is not a database of this version is refused and left untouched.",
 ["histories", "inputs", "configurations"], "every collection and indexing history, every hash key",
 "Dump comparisons cover twenty fixed databases built with one hash key.",
 ["writer.c", "reader.c", "reader.h", "tok.c", "hash.c", "db.c"],
 [("compute_mapping, char_length, write_*", "writer.c"), ("open_db validation", "reader.c"), ("check_database_integrity", "db.c"), ("enlarge_toktable", "tok.c")],
 [("database file", "40-word header, per-message tables, token tables", "reader.h")],
 ["database bytes decoded by an independent parser"])

prop("C16", "IMAP folders are indexed, searched and delivered like local mail",
 "With an IMAP account as source, every message of every named folder (save those marked deleted) is indexed once and is found by the same queries as the same mail stored locally; new and expunged messages are picked up incrementally (also after the server renumbers a folder), and messages that could not be fetched are tried again. Matches are delivered byte-exactly into maildir, MH, mbox or IMAP result folders. Server errors, refused logins or broken connections end in an error exit or skipped message, never in a crash or a wrong result, and the source mailbox is never modified.",
 ["inputs", "histories", "fault_sequences"], "every mailbox content, server history and response formatting or failure allowed by the protocol",
 "No existing test touches the IMAP code at all.",
 ["imap.c", "imapinterface.c", "search.c", "db.c"],
 [("imap_ll parser and command loop", "imap.c"), ("scan_folder, make_rfc822_from_imap, imap_fetch_message_raw, imap_append_new_message", "imapinterface.c")],
 None, ["scripted IMAP server on imap_pipe= recording every command"])

prop("C17", "Settings are resolved the documented way",
 "Every setting takes effect from the rc file, is overridden by its documented environment variable and then by the command line, with $VAR, ${VAR} and leading ~/ expansion, comments, blank and unknown lines ignored, repeated folder lines accumulated and otherwise the last line winning. Relative folders are taken relative to base, as are result folders unless they start with / or ./, and absolute ones as they are. A missing base, database, folder list or result folder, or a bad option, ends in an error exit before anything is written.",
 ["configurations"], "every rc file layout, environment and option combination",
 "All specs use one fixed rc file template.",
 ["mairix.c", "expandstr.c"],
 [("parse_rc_file, add_folders, expand_string", "mairix.c, expandstr.c"), ("getenv overrides", "mairix.c:main")])

prop("C18", "One unreadable or malformed message never costs the others",
 "If some messages, folders or mboxes are malformed, empty, unreadable, or vanish while the indexer runs, all other messages are indexed and searchable exactly as if the bad ones were absent. The unreadable ones are picked up by a later run once readable, malformed ones once they are replaced. If matched messages vanish before a search, the remaining matches are still delivered.",
 ["fault_sequences", "inputs"], "every subset of files failing at open, stat, map or decompress time, in every run",
 "One spec has a corrupt header; no I/O failure is ever injected.",
 ["db.c", "rfc822.c", "mbox.c", "dirscan.c", "search.c"],
 [("make_rfc822 NULL handling in scan_new_messages", "db.c, rfc822.c"), ("add_mbox_messages error handling", "mbox.c"), ("create_ro_mapping failure paths", "rfc822.c")])

prop("C19", "A run that cannot finish says so and leaves the database as it was",
 "An index or purge run that ends with an error exit (bad options or settings, database or disk not writable, no space) or is stopped by a signal while it is still reading mail leaves the database byte for byte as it was and no half-made one behind, and the next run completes the work as if nothing had happened; searches never change the database. A search that cannot clear its result folder or deliver a match (full disk, no permission, link or directory refused, output lost) reports it and ends with an error exit, not with the status of success or of no matches; in maildir and MH results it leaves no partial copy and still delivers the other matches, and repeating it once the cause is gone gives the complete result.",
 ["fault_sequences", "crash_points"], "every failing call and every moment of interruption before the new database is written",
 "No existing test interrupts a run or makes any call fail.",
 ["writer.c", "search.c", "mairix.c", "db.c"],
 [("create_rw_mapping", "writer.c"), ("create_symlink, write_copy, close_output, clear_*", "search.c"), ("handlesig, unlock_and_exit", "mairix.c")])

prop("C20", "The dump shows the whole database as it is and changes nothing",
 "-d (--dump) prints every message of the database in order with its kind, path or mbox position, size, thread and flags, dead ones included, every mbox with its message count, the hash key, and for every header field, the body, attachment names and message-IDs each word with the exact list of messages it occurs in: nothing is left out, repeated or attributed to another table, whatever the size and history of the database. It leaves the database and all else as they were, and where there is no database of this version it ends in an error exit.",
 ["inputs", "histories"], "every database that index, purge and removal histories can produce",
 "Tests compare the dumps of a few small, freshly written databases (no word in more than 16 messages).",
 ["dumper.c", "reader.c"],
 [("dump_database, dump_token_chain, dump_toktable2", "dumper.c"), ("int_list_reader_read, read_db_int_list_reader_init", "reader.c"), ("do_dump", "mairix.c:main")],
 None, ["text of the dump read back and compared with an independently decoded database"])

prop("C21", "A scanner made by dfasyn recognises exactly what its description says",
 "Every scanner dfasyn generates - mairix's own date, header, MIME and mbox scanners among them - assigns to every input sequence exactly the attributes its .nfa description gives it and rejects (next state -1) exactly the inputs no further match can follow. This holds for all of the language of dfasyn(5): character classes with ranges, escapes, negation and difference, abbreviations, tokens, epsilon and multi-step transitions, block instances and inline blocks, states opened more than once, several entries, and result groups with prioritised attr lines, early results, defattr, tag definitions and expressions (~ & ^ | ?:). The options -u, -ud, -I/-ho, -p, -r, -v, -o change only the form of the output. A description that is wrong or ambiguous is refused with a message and an error exit; never a crash, a hang or a silently different scanner.",
 ["inputs"], "every description, input sequence and set of options",
 "No existing test runs dfasyn other than to build mairix; the suite samples a few headers through the generated scanners.",
 ["dfasyn/"],
 [("build_dfa, generate_epsilon_closure", "dfasyn/n2d.c"), ("compress_dfa", "dfasyn/compdfa.c"), ("compress_transition_table", "dfasyn/tabcompr.c"), ("evaluate_attrs, eval", "dfasyn/evaluator.c, dfasyn/expr.c"), ("split_charclasses", "dfasyn/charclass.c, dfasyn/abbrevs.c"), ("instantiate_block, inline blocks", "dfasyn/blocks.c, dfasyn/states.c"), ("grammar and lexer", "dfasyn/parse.y, dfasyn/scan.l"), ("write_next_state_function_compressed and the other writers", "dfasyn/dfasyn.c")],
 None, ["product walk of the compiled generated scanner with an independent subset automaton of the description", "ASan/UBSan on dfasyn and on the generated code"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
