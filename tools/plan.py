VARIANTS = {
    'std': {},
    'rand': {'features': 'random_leader'},
    'ovf': {'flags': '-C overflow-checks=on'},
}
ASSUMPTIONS = [
    'tokio, futures-util select! and muta-apm are replaced by deterministic stand-ins; the harness owns the schedule',
    'HashMap iteration order is insertion order in the symbolic run',
    'logging and string formatting have no effect',
    'signatures are ideal: a signature verifies exactly for the bytes and signers it was made for (the application supplies the Crypto trait)',
]
ITE = ['--ite-addr']
PLAN = {
    'C01': {
        'bounds': 'lists of up to 5 validators with symbolic 32-bit weights, every bitmap of one byte',
        'runs': [
            {'h': 'h_c01_weights', 'reach': ['end', 'short', 'enough']},
        ],
    },
    'C02': {
        'bounds': 'four validators; certificate and proof-of-lock fields symbolic (height, round up to 256; type, block, signers, bitmap enumerated)',
        'runs': [
            {'h': 'h_c02_sigs', 'reach': ['end', 'recovered']},
            {'h': 'h_c02_polc'},
            {'h': 'h_c02_locked'},
            {'h': 'h_c02_replayed'},
        ],
    },
    'C03': {
        'bounds': 'one node of four equal validators; heights up to 128 and rounds up to 128 symbolic; histories of an opening (10 kinds) and 2 to 4 further events, crashes before any external effect, one failing log write or commit where relevant; two events that meet (up to 6 task steps apart, every input looked at first); thorough: one more event, longer bursts or the full event set',
        'runs': [
            {'h': 'h_c03_votes'},
            {'h': 'h_c03_crash'},
            {'h': 'h_c03_leader'},
            {'h': 'h_c03_race'},
            {'h': 'h_c03_slow'},
            {'h': 'h_c03_raced', 'tier': 'thorough', 'time': 1800},
            {'h': 'h_c03_deep', 'tier': 'thorough', 'time': 2400},
        ],
    },
    'C04': {
        'bounds': 'one node of four equal validators; heights up to 128 and rounds up to 128 symbolic; histories of an opening (10 kinds) and 2 to 4 further events, crashes before any external effect, one failing log write or commit where relevant; two events that meet (up to 6 task steps apart, every input looked at first); thorough: one more event, longer bursts or the full event set',
        'runs': [
            {'h': 'h_c04_lock'},
            {'h': 'h_c04_rounds'},
            {'h': 'h_c04_race'},
            {'h': 'h_c04_raced', 'tier': 'thorough', 'time': 1800},
            {'h': 'h_c02_locked'},
            {'h': 'h_c04_deep', 'tier': 'thorough', 'time': 2400},
        ],
    },
    'C05': {
        'bounds': 'one node of four equal validators; heights up to 128 and rounds up to 128 symbolic; histories of an opening (10 kinds) and 2 to 4 further events, crashes before any external effect, one failing log write or commit where relevant; two events that meet (up to 6 task steps apart, every input looked at first); thorough: one more event, longer bursts or the full event set',
        'runs': [
            {'h': 'h_c05_precommits'},
            {'h': 'h_c05_heights'},
            {'h': 'h_c05_leader'},
            {'h': 'h_c05_race'},
            {'h': 'h_c05_raced', 'tier': 'thorough', 'time': 1800},
            {'h': 'h_c05_deep', 'tier': 'thorough', 'time': 2400},
        ],
    },
    'C06': {
        'bounds': 'one node of four equal validators; heights up to 128 and rounds up to 128 symbolic; histories of an opening (10 kinds) and 2 to 4 further events, crashes before any external effect, one failing log write or commit where relevant; two events that meet (up to 6 task steps apart, every input looked at first); thorough: one more event, longer bursts or the full event set',
        'runs': [
            {'h': 'h_c06_commits'},
            {'h': 'h_c06_after'},
            {'h': 'h_c06_contents'},
            {'h': 'h_c06_restart'},
            {'h': 'h_c06_race'},
            {'h': 'h_c06_raced', 'tier': 'thorough', 'time': 1800},
            {'h': 'h_c06_deep', 'tier': 'thorough', 'time': 2400},
            {'h': 'h_c06_afterd', 'tier': 'thorough', 'time': 2400},
        ],
    },
    'C07': {
        'bounds': 'one node of four equal validators; heights up to 128 and rounds up to 128 symbolic; histories of an opening (10 kinds) and 2 to 4 further events, crashes before any external effect, one failing log write or commit where relevant; two events that meet (up to 6 task steps apart, every input looked at first); thorough: one more event, longer bursts or the full event set',
        'runs': [
            {'h': 'h_c07_faults'},
            {'h': 'h_c07_restart'},
            {'h': 'h_c07_leader'},
            {'h': 'h_c07_race'},
            {'h': 'h_c07_slow'},
            {'h': 'h_c07_raced', 'tier': 'thorough', 'time': 1800},
            {'h': 'h_c06_restart'},
            {'h': 'h_c07_deep', 'tier': 'thorough', 'time': 2400},
        ],
    },
    'C08': {
        'bounds': 'one proposal of 4 proposers, 9 kinds of signature and 9 kinds of proof of lock, of this round or a later one; one node of four equal validators; heights up to 128 and rounds up to 128 symbolic; histories of an opening (10 kinds) and 2 to 4 further events, crashes before any external effect, one failing log write or commit where relevant; two events that meet (up to 6 task steps apart, every input looked at first); thorough: one more event, longer bursts or the full event set',
        'runs': [
            {'h': 'h_c08_history'},
            {'h': 'h_c08_lead', 'reach': ['end', 'proposed']},
            {'h': 'h_c08_inputs', 'reach': ['end', 'acted']},
            {'h': 'h_c08_next', 'reach': ['end', 'acted']},
            {'h': 'h_c08_race'},
            {'h': 'h_c08_inputsd', 'tier': 'thorough', 'time': 1800},
            {'h': 'h_c08_raced', 'tier': 'thorough', 'time': 1800},
        ],
    },
    'C09': {
        'bounds': 'lists of up to 7 validators; heights and rounds up to 2^61 times the list length plus the topmost 128 values; lists of 8 to 40 validators, two rounds or heights at a time; running node: up to 5 validators, heights and rounds up to 32 times the list length from 0, 2^32 and 2^62 on, three weightings; random option: up to 3 validators with weights below 16 and seeds below 12 or wrapping, and 4 extreme-weight configurations',
        'runs': [
            {'h': 'h_c09_order', 'bounds': 'n 1..6, both orders'},
            {'h': 'h_c09_fair', 'bounds': 'n 2..6'},
            {'h': 'h_c09_heights', 'bounds': 'n 2..6'},
            {'h': 'h_c09_fairw', 'bounds': 'n 2..7, 60-bit quotients'},
            {'h': 'h_c09_heightsw', 'bounds': 'n 2..7, 60-bit quotients'},
            {'h': 'h_c09_big', 'bounds': 'n 8..40, 56-bit quotients, two rounds and two heights at a time'},
            {'h': 'h_c09_follows', 'bounds': 'n 2..5', 'reach': ['end', 'leader', 'other']},
            {'h': 'h_c09_votes', 'bounds': 'n 2..5'},
            {'h': 'h_c09_proposes', 'bounds': 'n 2..5', 'reach': ['end', 'proposed', 'silent']},
            {'h': 'h_c09_rweights', 'v': 'rand', 'bounds': 'n 2..3'},
            {'h': 'h_c09_rsum', 'v': 'rand', 'bounds': '24 seeds'},
            {'h': 'h_c09_rwide', 'v': 'rand', 'bounds': 'extreme weights'},
        ],
    },
    'C10': {
        'bounds': 'four validators in two orders; symbolic 4-bit weights at two scales and up to 2 votes (thorough 3), or one vote of each with 12 kinds of flaws',
        'runs': [
            {'h': 'h_c10_weighted', 'reach': ['end', 'certificate']},
            {'h': 'h_c10_flaws', 'reach': ['end', 'certificate']},
            {'h': 'h_c10_early', 'reach': ['end', 'certificate']},
            {'h': 'h_c10_weightedd', 'tier': 'thorough', 'time': 2400},
        ],
    },
    'C11': {
        'bounds': 'arbitrary inputs of up to 4 bytes (thorough 6); every single-byte mutation (thorough: two adjacent bytes) of a valid encoding of each type; round trips with symbolic scalars and byte fields of up to 2 bytes',
        'runs': [
            {'h': 'h_c11_rt', 'panics': True},
            {'h': 'h_c11_any', 'panics': True},
            {'h': 'h_c11_mut', 'panics': True},
            {'h': 'h_c11_rtd', 'panics': True, 'tier': 'thorough', 'time': 3000},
            {'h': 'h_c11_anyd', 'panics': True, 'tier': 'thorough', 'time': 3000},
            {'h': 'h_c11_mutd', 'panics': True, 'tier': 'thorough', 'time': 3000},
        ],
    },
    'C12': {
        'bounds': 'byte fields of up to 3 symbolic bytes and some long ones, texts of up to 4 symbolic characters, lists of up to 2 addresses',
        'runs': [
            {'h': 'h_c12_rt', 'panics': True, 'opts': ITE},
            {'h': 'h_c12_long', 'panics': True, 'opts': ITE},
            {'h': 'h_c12_text', 'panics': True, 'opts': ITE},
            {'h': 'h_c12_list', 'panics': True, 'opts': ITE},
        ],
    },
    'C13': {
        'bounds': 'one node of four equal validators; heights up to 128 and rounds up to 128 symbolic; histories of an opening (10 kinds) and 2 to 4 further events, crashes before any external effect, one failing log write or commit where relevant; two events that meet (up to 6 task steps apart, every input looked at first); thorough: one more event, longer bursts or the full event set',
        'runs': [
            {'h': 'h_c13_order'},
            {'h': 'h_c13_heights'},
            {'h': 'h_c13_race'},
            {'h': 'h_c13_slow'},
            {'h': 'h_c13_raced', 'tier': 'thorough', 'time': 1800},
            {'h': 'h_c13_deep', 'tier': 'thorough', 'time': 2400},
        ],
    },
    'C14': {
        'bounds': 'rounds 0 to 7, 8 to 2^20, and 16 values around 2^31, 2^32 and 2^62; interval and ratios symbolic in up to 9 bits around several bases (one factor symbolic at a time); settings over two new heights or a commit; stale timers: histories of an opening and two events',
        'runs': [
            {'h': 'h_c14_durations'},
            {'h': 'h_c14_wide'},
            {'h': 'h_c14_settings'},
            {'h': 'h_c14_committed'},
            {'h': 'h_c14_past', 'reach': ['end', 'works']},
        ],
    },
    'C15': {
        'bounds': 'up to 5 chokes of 10 kinds among 3 to 7 validators, aggregated chokes of 9 voter lists and 6 kinds of signature for any round; one node of four equal validators; heights up to 128 and rounds up to 128 symbolic; histories of an opening (10 kinds) and 2 to 4 further events, crashes before any external effect, one failing log write or commit where relevant; two events that meet (up to 6 task steps apart, every input looked at first); thorough: one more event, longer bursts or the full event set',
        'runs': [
            {'h': 'h_c15_rounds'},
            {'h': 'h_c15_chokes', 'reach': ['end', 'moved']},
            {'h': 'h_c15_long', 'reach': ['end', 'moved']},
            {'h': 'h_c15_more', 'reach': ['end', 'moved']},
            {'h': 'h_c15_aggregated', 'reach': ['end', 'moved']},
            {'h': 'h_c15_replayed'},
            {'h': 'h_c15_race'},
            {'h': 'h_c15_chokesd', 'tier': 'thorough', 'time': 1800},
            {'h': 'h_c15_aggregatedd', 'tier': 'thorough', 'time': 1800},
            {'h': 'h_c15_raced', 'tier': 'thorough', 'time': 1800},
            {'h': 'h_c15_deep', 'tier': 'thorough', 'time': 2400},
        ],
    },
    'C16': {
        'bounds': 'every message kind at openings of 10 kinds, heights and rounds any 64-bit value, addresses, signatures, bitmaps and contents from valid, foreign, malformed and symbolic; two in a row and ordinary traffic afterwards compared with a node that never saw them; thorough: every event set, one more message',
        'runs': [
            {'h': 'h_c16_messages', 'panics': True},
            {'h': 'h_c16_chokes', 'panics': True},
            {'h': 'h_c16_ordinary', 'panics': True},
            {'h': 'h_c16_status', 'panics': True},
            {'h': 'h_c16_stop', 'panics': True},
            {'h': 'h_c16_messagesd', 'tier': 'thorough', 'time': 1500, 'panics': True},
            {'h': 'h_c16_alld', 'tier': 'thorough', 'time': 1500, 'panics': True},
            {'h': 'h_c16_twod', 'tier': 'thorough', 'time': 1500, 'panics': True},
            {'h': 'h_c16_ordinaryd', 'tier': 'thorough', 'time': 1500, 'panics': True},
            {'h': 'h_c16_statusd', 'tier': 'thorough', 'time': 1500, 'panics': True},
        ],
    },
    'C17': {
        'bounds': 'proposals, votes and certificates 1 to 8 heights and up to 13 rounds ahead (and up to 2^40 ahead symbolically), rounds 1 to 13 ahead in the same height, 4 validator lists for the height to come; compared with a node that gets them when the height or round has begun (or never), for one further event (thorough 2); 9 kinds of messages that do not hold at their height; no effect before: openings and one event (thorough 2)',
        'runs': [
            {'h': 'h_c17_kept'},
            {'h': 'h_c17_pairs'},
            {'h': 'h_c17_lead'},
            {'h': 'h_c17_before'},
            {'h': 'h_c17_bad'},
            {'h': 'h_c17_gap', 'reach': ['end', 'kept', 'dropped']},
            {'h': 'h_c17_far'},
            {'h': 'h_c17_rounds', 'reach': ['end', 'kept', 'dropped']},
            {'h': 'h_c17_befored', 'tier': 'thorough', 'time': 1800},
            {'h': 'h_c17_badd', 'tier': 'thorough', 'time': 1800},
        ],
    },
    'C18': {
        'bounds': '13 ways to get outside (start, status, own commit, restart with a log) and 2 events of 10 kinds around the node (thorough 3); then listed again: compared with a node that was never outside for one event, and out again with one event',
        'runs': [
            {'h': 'h_c18_silent'},
            {'h': 'h_c18_leader'},
            {'h': 'h_c18_again'},
            {'h': 'h_c18_silentd', 'tier': 'thorough', 'time': 1800},
            {'h': 'h_c18_againd', 'tier': 'thorough', 'time': 1800},
        ],
    },
    'C19': {
        'bounds': 'a node with a past (opening of 10 kinds and an event) against a node that starts without one: same visible behaviour at the new height for up to 2 events, 4 validator lists (and 3 that change only weights), target 1 to 3 heights up, and old messages, results, timers and statuses arriving before or in between; lower statuses and commits that return no higher status: no difference over 2 further events',
        'runs': [
            {'h': 'h_c19_clean'},
            {'h': 'h_c19_plain'},
            {'h': 'h_c19_weights'},
            {'h': 'h_c19_race'},
            {'h': 'h_c19_mixed'},
            {'h': 'h_c19_fails'},
            {'h': 'h_c19_old'},
            {'h': 'h_c19_lower'},
            {'h': 'h_c19_commit'},
            {'h': 'h_c19_deep', 'tier': 'thorough', 'time': 1200},
            {'h': 'h_c19_deep2', 'tier': 'thorough', 'time': 1200},
            {'h': 'h_c19_lowerd', 'tier': 'thorough', 'time': 1200},
        ],
    },
    'C20': {
        'bounds': 'lists of up to 8 validators in 4 orders and 4 weightings, every bitmap of up to 2 bytes; builder: every subset of up to 8 voters; lists of 9 to 70 validators with the first bytes of the bitmap in 3 values and every last byte; builder over 9, 11, 35 and 66 validators, every subset of the last six',
        'runs': [
            {'h': 'h_c20_helper'},
            {'h': 'h_c20_sorts'},
            {'h': 'h_c20_received', 'reach': ['end', 'verified']},
            {'h': 'h_c20_carried', 'reach': ['end', 'verified']},
            {'h': 'h_c20_built', 'reach': ['end', 'built']},
            {'h': 'h_c20_helper_long'},
            {'h': 'h_c20_received_long', 'reach': ['end', 'verified']},
            {'h': 'h_c20_built_long', 'reach': ['end', 'built', 'precommits']},
        ],
    },
    'C22': {
        'bounds': 'one node of four equal validators; heights and rounds up to 128 symbolic (round 0 included); openings (up to 10 kinds), one or two events (5 to 6 kinds: certificates and aggregated chokes of any round, chokes, timers, a restart), then timers until it chokes; the node as leader; one crash before any effect; the receiver in any lower round, with or without the block; thorough: three events out of the full set',
        'runs': [
            {'h': 'h_c22_sent'},
            {'h': 'h_c22_crash'},
            {'h': 'h_c22_leader'},
            {'h': 'h_c22_followed', 'reach': ['followed']},
            {'h': 'h_c22_deep', 'tier': 'thorough', 'time': 2400},
        ],
    },
    'C21': {
        'bounds': 'one node of four equal validators, each of them as the leader; a past of an opening (8 kinds) and one further event (14 kinds, crash included), then a round or height entered by a certificate, an aggregated choke or a status, with everything in time (2 orders; 9 orders without a past) or with nothing, votes for no block, no precommits or chokes (5 kinds); 2 heights committed one after the other and a round without progress; thorough: 2 events, 10 openings, 9 orders, 4 heights',
        'runs': [
            {'h': 'h_c21_good', 'reach': ['end', 'followed', 'led']},
            {'h': 'h_c21_late'},
            {'h': 'h_c21_orders', 'reach': ['end', 'followed']},
            {'h': 'h_c21_bad', 'reach': ['end', 'choked', 'skipped', 'led']},
            {'h': 'h_c21_heights', 'reach': ['end', 'followed', 'led', 'choked']},
            {'h': 'h_c21_goodd', 'tier': 'thorough', 'time': 2400},
            {'h': 'h_c21_badd', 'tier': 'thorough', 'time': 2400},
            {'h': 'h_c21_heightsd', 'tier': 'thorough', 'time': 1200},
        ],
    },
}
