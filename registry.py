"""What is built and what is run, per property."""
BINARIES = {
    'journal': dict(sources=['h_journal.cpp']),
    'crash': dict(sources=['h_crash.cpp']),
    'fuzzfile': dict(sources=['h_fuzzfile.cpp'], schemas=['alpha', 'beta'], variant='fuzz', encoded=True),
    'fk': dict(sources=['h_fk.cpp']),
    'db': dict(sources=['h_db.cpp'], schemas=['alpha', 'beta']),
    'upgrade': dict(sources=['h_upgrade.cpp'], schemas=['up1', 'up2', 'up3', 'up4', 'beta']),
    'server': dict(sources=['h_server.cpp'], schemas=['conc']),
    'rpc': dict(sources=['h_rpc.cpp'], schemas=['svc'], schema_sources=['writable.cpp', 'rpc/amount/writable.cpp', 'rpc/batch/writable.cpp']),
    'tsan': dict(sources=['h_tsan.cpp'], variant='tsan', schemas=['svc', 'conc'], schema_sources=['writable.cpp', 'rpc/amount/writable.cpp', 'rpc/batch/writable.cpp']),
    'content': dict(sources=['h_content.cpp'], schemas=['conc']),
    'shared': dict(sources=['h_shared.cpp'], schemas=['conc']),
    'file': dict(sources=['h_file.cpp'], encoded=True),
    'text': dict(sources=['h_text.cpp']),
    'commands': dict(sources=['h_commands.cpp']),
    'tools': dict(encoded=True, sources=['h_tools.cpp'] + ['tool_%s.cpp' % t for t in ('pack', 'convert', 'merge', 'push', 'logdump', 'to_json')]),
}
CHECKS = {
    'J01': dict(level='exploration', runs=[
        dict(bin='journal', mode='round_trip', cases=(3000, 60000)),
        dict(bin='journal', mode='turns', cases=(4000, 80000))],
        rule='one case = one journal history (operation stream, checkpoints, sessions, file kind, replay mode); '
             'distinct by the sequence of operation kinds, types and size classes',
        require=['operations', 'reopens', 'turns', 'follower_pulls']),
    'J02': dict(level='fault_enumeration', runs=[dict(bin='crash', mode='power', cases=(600, 12000))],
        rule='one case = one history of writes, soft and hard checkpoints over up to 4 lives of a file; every file event of it is a '
             'crash point and each is combined with several subsets and tearings of the unsynced writes; distinct by the sequence of file events',
        require=['hard_recoveries', 'hard_checkpoints', 'soft_checkpoints'],
        assumptions=['a completed sync makes all earlier writes durable; a completed datasync makes durable those inside the size of the last sync']),
    'J03': dict(level='fault_enumeration', runs=[
        dict(bin='crash', mode='kill_points', cases=(1200, 24000)),
        dict(bin='crash', mode='faults', cases=(6000, 120000)),
        dict(bin='crash', mode='processes', cases=(300, 4000))],
        rule='one case = one history killed at every file event (and inside large writes), or with one failing file operation, or a real '
             'process killed or stopped by a file-size limit; distinct by event sequence, respectively fault position, respectively file size reached',
        require=['kill_images', 'faults_reported', 'refused', 'overwritten', 'ignore_header', 'kills', 'size_limits', 'retried_checkpoints']),
    'J07': dict(level='exploration', runs=[dict(bin='file', mode='array', cases=(2500, 80000))],
        rule='one case = one sequence of writes, reads, copies, comparisons, hashes and reopenings over two files of any kinds; distinct by kinds and sequence of calls',
        require=['writes', 'reads', 'copies', 'comparisons', 'views', 'slices', 'reopens', 'kind_brotli', 'kind_encoded', 'kind_stream', 'kind_portable', 'kind_posix']),
    'J08': dict(level='exploration', runs=[
        dict(bin='file', mode='streambuf', cases=(3000, 120000)),
        dict(bin='file', mode='iostream', cases=(500, 20000))],
        rule='one case = one sequence of stream-buffer calls; distinct by kind of file and sequence of calls',
        require=['gets', 'puts', 'seeks', 'tells', 'ungets', 'turns', 'lines'],
        assumptions=['changing between reading and writing is preceded by a seek or a flush, as for any file stream']),
    'J09': dict(level='exploration', runs=[dict(bin='file', mode='hash', cases=(3000, 40000))],
        rule='one case = one content, range and read chunking; distinct by length',
        require=['digests', 'short_read_digests', 'differences', 'sampled_hashes']),
    'D06': dict(level='exploration', runs=[dict(bin='file', mode='blobs', cases=(3000, 60000))],
        rule='one case = one history of blob writes, checkpoints, reopenings, replays and replications over one kind of file; distinct by kind and sequence of calls',
        require=['blobs', 'blob_reads', 'replays', 'replications', 'bad_references']),
    'C06': dict(level='exploration', runs=[dict(bin='content', mode='content', cases=(14000, 100000), case_timeout=90)],
        rule='one case = two histories (equal, one a prefix of the other, different in one byte, different from some point), and up to four lives of clients of three '
             'kinds over one of five kinds of connections, with pulls, transactions, partial pushes and other writers; distinct by kinds and sequence of steps',
        require=['accepted none', 'accepted fast', 'accepted full', 'refused fast', 'refused full', 'comparisons', 'pulled', 'pushed', 'partly_pushed', 'transactions',
                 'divergences', 'others_writing', 'refused_pushes', 'refused_transactions', 'big_histories'],
        assumptions=['a check by sampling must notice differences in small histories and at the beginning and the end of what both sides have']),
    'R02': dict(level='exploration', runs=[
        dict(bin='content', mode='remote', cases=(8000, 60000), case_timeout=90),
        dict(bin='content', mode='url', cases=(6000, 60000), case_timeout=90)],
        rule='one case = one server whose file is read and written without a copy in up to three lives of clients, beside another client; or one file read through '
             'HTTP or a local URL; distinct by the sequence of actions, respectively manners of the web server and kinds of ranges',
        require=['ranges', 'range_bytes', 'copies', 'transactions', 'pulls', 'others_writing', 'blobs_read', 'own_blobs', 'readonly_openings', 'journals', 'aborted', 'restarts',
                 'refused_writes', 'refused_transactions', 'http_ranges', 'file_url_ranges', 'url_openings', 'url_refusals', 'url_pulls'],
        assumptions=['servers are reached through local sockets; files behind SFTP are not covered: there is no SSH server here']),
    'D01': dict(level='exploration', runs=[dict(bin='db', mode='lockstep', cases=(6000, 200000)),
        dict(bin='db', mode='sparse', cases=(400, 4000))],
        rule='one case = one history of typed calls on a compiled database (in memory, in a file, or behind a client), the model and the interpreted '
             'database compared with it; distinct by schema, kind of store and sequence of calls',
        require=['operations', 'reopens', 'journal_comparisons', 'readonly_openings', 'interpreted_replays', 'multiplexer_feeds', 'readonly_client_pulls']),
    'D02': dict(level='exploration', runs=[dict(bin='db', mode='indexes', cases=(8000, 300000))],
        rule='one case = one history of typed calls with key values that often collide; distinct by kind of store and sequence of calls',
        require=['index_comparisons', 'conflicts', 'lookups', 'absent_lookups', 'reopens']),
    'D03': dict(level='exploration', runs=[
        dict(bin='db', mode='interpreted', cases=(4000, 200000)),
        dict(bin='db', mode='through_client', cases=(3000, 100000)),
        dict(bin='db', mode='limits', cases=(2, 2)),
        dict(bin='db', mode='typed', cases=(3000, 100000))],
        rule='one case = one history of valid and invalid operations; distinct by sequence of kinds of operations',
        require=['accepted', 'rejected', 'client_rejected', 'typed_rejections delete', 'typed_rejections insert', 'typed_rejections update', 'typed_rejections update_vec',
                 'typed_rejections delete_vec', 'replayed_rejections insert', 'replayed_rejections delete', 'replayed_rejections update_vec', 'replayed_rejections delete_vec']),
    'D04': dict(level='exploration', runs=[
        dict(bin='upgrade', mode='upgrade', cases=(4000, 100000)),
        dict(bin='upgrade', mode='mismatch', cases=(2000, 40000)),
        dict(bin='upgrade', mode='concurrent', cases=(400, 8000))],
        rule='one case = one life of a file through versions of a schema with data written by each, or one altered schema, or an upgrade met by open clients; '
             'distinct by versions and number of operations, respectively place and kind of the alteration',
        require=['upgrades', 'creations', 'customs', 'failed_customs', 'refused_upgrades', 'client_upgrades', 'refusals_newer', 'refusals_old-readonly', 'refusals_foreign',
                 'mismatches', 'upgrades_met', 'no_upgrade']),
    'D05': dict(level='exploration', runs=[dict(bin='fk', mode='keeper', cases=(20000, 400000))],
        rule='one case = one history of allocations, releases, explicit and range operations on one of the three keepers, all '
             'enumerations and queries compared after every operation; distinct by kind and sequence of operations',
        require=['allocations', 'releases', 'explicit_uses', 'range_uses', 'range_releases', 'chosen_insertions', 'full_checks', 'range_queries']),
    'C01': dict(level='exploration', runs=[dict(bin='shared', mode='transactions', cases=(1000, 12000), case_timeout=90)],
        rule='one case = one scene of 2 to 4 processes with 1 or 2 threads each, of four kinds of clients, sharing one file, with random pauses before file '
             'operations, aborted transactions and killed processes; distinct by the order in which the clients committed',
        require=['transactions', 'owner_changes', 'aborted', 'killed_processes', 'refused_openings', 'sessions']),
    'C02': dict(level='exploration', runs=[
        dict(bin='server', mode='protocol', cases=(1500, 40000), case_timeout=90),
        dict(bin='server', mode='history', cases=(800, 8000), case_timeout=90)],
        rule='one case = one sequence of 15 to 75 requests of 2 to 5 sessions to a server, each reply compared with a model (committed bytes, owner of the lock, '
             'who waits), or one scene of several processes of '
             'clients, pull-only servers and mirrors of a server, verified from what each observed; distinct by the sequence of requests and model states, '
             'respectively the order in which the clients committed',
        require=['requests', 'pushes', 'conflicts', 'locks', 'locks_after_waiting', 'woken_pulls', 'broken_pushes', 'second_locks', 'vanished_waiters',
                 'pushes_beside_a_lock', 'reads', 'same_hashes', 'other_hashes',
                 'transactions', 'owner_changes', 'observations', 'relays', 'direct_writers', 'killed_processes', 'replicas'],
        assumptions=['one server process at a time, reached through a local socket']),
    'C03': dict(level='exploration', runs=[dict(bin='server', mode='hostile', cases=(1200, 30000), case_timeout=90)],
        rule='one case = one server met by 2 to 9 rounds of clients that send noise, strange numbers and half requests, do not read, disconnect, or stay silent, '
             'each followed by a client that behaves; or a server out of file descriptors; distinct by kind of server, ending and requests of the rounds',
        require=['hostile_streams', 'hostile_requests', 'certain_outcomes', 'uncertain_outcomes', 'hostile_commits', 'held', 'silent_clients', 'lost_upstreams',
                 'exhaustions'],
        assumptions=['clients reach the server through a local socket']),
    'C05': dict(level='exploration', runs=[dict(bin='server', mode='broken', cases=(1500, 16000), case_timeout=120)],
        rule='one case = one server and 1 to 3 processes of clients whose channels break at random bytes of random operations, and whose server may be killed and '
             'restarted; then every replica that was left is compared with the history and goes on without faults; distinct by the order in which the clients committed',
        require=['errors', 'unknown_outcomes', 'unpushed_transactions', 'replicas_going_on', 'replicas_refused', 'server_kills', 'server_restarts', 'transactions'],
        assumptions=['one server process at a time, reached through a local socket', 'the file of the server survives']),
    'C04': dict(level='exploration', runs=[
        dict(bin='tsan', mode='connections', cases=(1600, 20000)),
        dict(bin='tsan', mode='endings', cases=(2000, 30000)),
        dict(bin='tsan', mode='procedures', cases=(800, 8000)),
        dict(bin='tsan', mode='loggers', cases=(2000, 30000))],
        rule='one case = one server in this process with clients in 1 to 4 threads, whose channels take random pauses and may fail; or a server that ends beside '
             'its clients; or clients that call procedures; or threads that share loggers; distinct by the plan of the threads, respectively by what they had done',
        require=['channel_uses', 'transactions', 'pings', 'short_lives', 'broken_channels', 'remote_reads', 'calls_before_the_end', 'errors_at_the_end', 'concurrent_calls',
                 'messages'],
        assumptions=['races are seen by ThreadSanitizer, within one process']),
    'T04': dict(level='exploration', runs=[
        dict(bin='commands', mode='commands', cases=(6000, 150000))],
        rule='one case = one sequence of lines given to the interpreter one by one, then all at once, then as a file, then to an interpreter that cannot write; '
             'distinct by the sequence of operations',
        require=['accepted', 'rejected', 'arbitrary_accepted', 'displays', 'blobs', 'states', 'scripts', 'quits', 'files', 'refused_files']),
    'R01': dict(level='exploration', runs=[
        dict(bin='rpc', mode='calls', cases=(6000, 60000)),
        dict(bin='rpc', mode='concurrent', cases=(1500, 12000)),
        dict(bin='rpc', mode='hostile', cases=(5000, 60000))],
        rule='one case = one sequence of calls of 1 to 3 clients, each repeated locally on an equal message and an equal service; or clients calling at the same '
             'time; or clients that send damaged messages beside clients that behave; distinct by sequence of calls, respectively bytes',
        require=['calls', 'failed_calls', 'connections', 'concurrent_calls', 'hostile_calls', 'honest_calls', 'refused_signatures', 'completed_streams']),
    'J04': dict(level='exploration', runs=[dict(bin='shared', mode='readers', cases=(1000, 9000), case_timeout=90)],
        rule='one case = one scene of writers (exclusive and shared) and 2 or 3 reading processes of four kinds, with random pauses before file operations; '
             'distinct by the order in which the writers committed',
        require=['observations', 'nonempty_observations', 'transactions', 'owner_changes', 'killed_processes']),
    'J05': dict(level='exploration', runs=[
        dict(bin='fuzzfile', mode='replay', cases=(6000, 300000)),
        dict(bin='fuzzfile', mode='encoded', cases=(4000, 100000))],
        rule='one case = one sequence of bytes, replayed in every way; distinct by bytes',
        require=['values', 'blobs_read', 'index_entries', 'writes_after', 'encoded_reads', 'accepted interpreted', 'refused interpreted', 'accepted readonly alpha', 'refused readonly alpha',
                 'accepted writable beta', 'refused writable beta', 'accepted text', 'refused text', 'accepted pack', 'refused pack', 'accepted client', 'refused client']),
    'J06': dict(level='exploration', runs=[
        dict(bin='shared', mode='locks', cases=(1500, 40000), case_timeout=90),
        dict(bin='shared', mode='open_modes', cases=(6000, 60000))],
        rule='one case = one sequence of openings, locks, writes, closings and kills of three processes with three handles each, or one opening in one state of the '
             'file system; distinct by sequence, respectively mode and state',
        require=['waits', 'still_waiting', 'granted_after_waiting', 'kills', 'probes', 'locked', 'writes', 'reads_beside_writers', 'opened_write_lock',
                 'opened_create_new', 'refused_create_new', 'refused_write_existing', 'refused_write_existing_or_create_new', 'unchanged']),
    'T01': dict(level='exploration', runs=[
        dict(bin='text', mode='dump', cases=(6000, 150000)),
        dict(bin='text', mode='text_file', cases=(1500, 30000)),
        dict(bin='tools', mode='programs', cases=(1500, 30000))],
        rule='one case = one history of operations written as text and read again, as a log and as tables, or one life of a file of commands in several sessions and '
             'handles; distinct by the sequence of operations',
        require=['commands', 'fixed_points', 'table_dumps', 'dangling_references', 'reopened', 'shared_transactions', 'exclusive_sessions', 'aborted', 'handwritten', 'unfinished'],
        assumptions=['names of custom events are words', 'a field whose referenced table was dropped cannot be stated by a dump of the tables']),
    'T02': dict(level='exploration', runs=[
        dict(bin='text', mode='json', cases=(8000, 200000)),
        dict(bin='text', mode='sql', cases=(3000, 60000))],
        rule='one case = one database exported, the export read by a strict JSON reader, respectively executed by SQLite, and compared with the model; distinct by the '
             'sequence of operations that built the database',
        require=['json_values', 'flagged_infnan', 'flagged_utf8', 'base64', 'references_to_no_table', 'sql_values', 'sql_logs', 'sql_tables', 'sql_infnan'],
        assumptions=['names of tables and columns differ by more than case and are not reserved by SQLite']),
    'T03': dict(level='exploration', runs=[
        dict(bin='tools', mode='pack', cases=(3000, 60000)),
        dict(bin='tools', mode='convert', cases=(3000, 60000)),
        dict(bin='tools', mode='push', cases=(3000, 60000)),
        dict(bin='tools', mode='merge', cases=(2500, 50000))],
        rule='one case = one to four database files written in one to three sessions, given to one of the programs, its output compared with the model of the inputs; '
             'distinct by the sequence of operations that wrote the files',
        require=['packed', 'inplace', 'inplace_refused', 'packed_blobs_refused', 'live_markers', 'existing_outputs', 'converted', 'until', 'ignore_header',
                 'converted_blob_references', 'push_new', 'push_extended', 'push_refused', 'push_ahead', 'push_until', 'merged', 'merged_values', 'merged_references', 'merged_dangling',
                 'merges_with_refusals', 'damaged_inputs', 'missing_inputs'],
        assumptions=['a reference to a table that was dropped, or beyond the records a table ever had, means nothing in a merged file']),
}
