"""Which engines decide which property, and how large the runs are."""
QUICK_SECONDS = 30        # search seconds on 8 cores (converted to case counts by the rates below)
THOROUGH_SECONDS = 300

# rate: generated cases per core-second (measured once, only used to size the runs); parts: one configuration each
ENGINES = {
    'list': {'src': 'list.cpp', 'rate': 1800, 'cost': 9, 'parts': 12},
    'slist': {'src': 'slist.cpp', 'rate': 1800, 'cost': 9, 'parts': 16},
    'tree': {'src': 'tree.cpp', 'rate': 1100, 'cost': 16, 'parts': 22},
    'hash': {'src': 'hash.cpp', 'rate': 600, 'cost': 12, 'parts': 25},
    'misc': {'src': 'misc.cpp', 'rate': 6000, 'cost': 6, 'parts': 6},
    'multi': {'src': 'multi.cpp', 'rate': 700, 'cost': 20, 'parts': 8},
    'algo': {'src': 'algo.cpp', 'rate': 2000, 'cost': 9, 'parts': 11},
    'check': {'src': 'check.cpp', 'rate': 5000, 'cost': 9, 'parts': 6},
    'misuse': {'src': 'misuse.cpp', 'rate': 7000, 'cost': 12, 'parts': 10},
    'dhash': {'src': 'dhash.cpp', 'rate': 2800, 'cost': 9, 'parts': 4},
    'cost': {'src': 'cost.cpp', 'rate': 2400, 'cost': 14, 'parts': 6},
    'foot': {'src': 'cost.cpp', 'rate': 350, 'cost': 13, 'parts': 6, 'flags': ['-DVF_FOOT']},
    'race': {'src': 'race.cpp', 'rate': 500, 'cost': 12, 'parts': 4, 'flags': ['-fno-sanitize=all']},   # (it protects and compares memory itself)
}


def E(name, quick=None, weight=1.0, only=None):
    """an engine with the parts the quick tier builds; the thorough tier builds all of them (or those in only)"""
    every = list(range(ENGINES[name]['parts'])) if only is None else only
    return (name, every if quick is None else quick, every, weight)


GEN = ('Each case is a seeded random configuration (container options, key range, prefill) and a history of 1 to 500 operations drawn from a '
       'random subset of the operation kinds with random emphasis. Every operation is applied to the real containers and to the model and all containers, hooks and saved iterators are '
       'compared afterwards. ')


def rule(focus):
    return GEN + 'Non-trivial: at least 3 operations took effect, some container held at least 2 elements, and at least one effective operation was one the property is about (' + focus + '). Distinct: different configuration or sequence of effective operations with different sizes and positions.'


AUTO = [E('list', [1, 3], only=[1, 3]), E('slist', [5, 8], only=[5, 8]), E('tree', [1, 5, 6, 7, 11], only=[1, 5, 6, 7, 11]), E('hash', [3, 4], only=[3, 4]), E('multi', [3], 0.7, only=[3])]


def G(li, sl, tr, ha):
    return [E('list', li, 0.6), E('slist', sl, 0.7), E('tree', tr, 1.4), E('hash', ha, 1.3)]


PROPS = {
    'C01': {'runs': [E('list')], 'rule': rule('any list operation')},
    'C02': {'runs': [E('slist')], 'rule': rule('any singly linked list operation')},
    'C03': {'runs': [E('tree')], 'rule': rule('lookups, bounds, ranges')},
    'C04': {'runs': [E('tree')], 'rule': rule('erasure, bulk insertion, rebalancing, splaying, exchanging nodes')},
    'C05': {'runs': [E('hash')], 'rule': rule('insertions, lookups, ranges, erasures')},
    'C06': {'runs': [E('hash')], 'rule': rule('a full or incremental rehash')},
    'C07': {'runs': G([0, 1, 3, 5, 10, 11], [1, 5, 6, 7, 11, 15], [0, 1, 5, 7, 8, 10, 12, 14, 15, 16, 18], [0, 2, 3, 4, 8, 14, 17, 18, 19, 21, 22, 23]), 'rule': rule('ways of leaving a container, copying or exchanging hooks')},
    'C08': {'runs': AUTO, 'rule': rule('an element unlinks itself or is destroyed while contained')},
    'C09': {'runs': G([1, 2, 5, 11], [0, 2, 4, 7, 10, 15], [2, 4, 7, 8, 9, 11, 12, 13, 14, 16, 19], [0, 1, 2, 6, 7, 9, 10, 13, 16, 18, 20, 22]), 'rule': rule('operations that take a disposer')},
    'C10': {'runs': G([0, 4, 7, 11], [1, 2, 4, 14], [0, 1, 5, 8, 9, 11, 12, 14, 16, 17, 20], [1, 2, 5, 7, 8, 9, 10, 12, 14, 16, 17, 19, 21, 22]), 'rule': rule('a clone')},
    'C11': {'runs': G([2, 3, 7, 8], [1, 5, 7, 14], [0, 4, 6, 7, 9, 10, 13, 14, 16, 18, 21], [0, 2, 6, 7, 9, 10, 12, 16, 18, 19, 22, 24]), 'rule': rule('a clone whose cloner throws')},
    'C12': {'runs': G([0, 4, 8, 9], [2, 7, 10, 14], [1, 4, 8, 9, 10, 12, 13, 14, 17, 20, 21], [0, 2, 5, 6, 7, 8, 9, 10, 12, 16, 17, 19, 21]), 'rule': rule('an operation with a functor that throws')},
    'C13': {'runs': G([0, 1, 2, 9, 11], [0, 1, 5, 7, 12, 15], [0, 2, 5, 8, 9, 10, 12, 16, 18, 19], [0, 5, 6, 7, 8, 9, 12, 14, 17, 18, 20, 21]), 'rule': rule('any operation')},
    'C14': {'runs': G([0, 2, 6, 7, 11], [1, 3, 4, 6, 10, 13, 14, 15], [0, 2, 6, 7, 9, 10, 12, 14, 16, 17, 19], [1, 2, 5, 6, 8, 9, 11, 16, 17, 18, 19, 20, 22, 23, 24]), 'rule': rule('an operation between two containers')},
    'C15': {'runs': [E('list', [0, 8, 11], 0.6), E('slist', [1, 2, 7, 15], 0.8), E('tree', [0, 3, 4, 8, 9, 10, 11, 12, 14, 18, 21], 1.8)], 'rule': rule('sort or merge, insertion of equivalents')},
    'C16': {'runs': G([0, 1, 7, 11], [2, 4, 11, 13, 14], [0, 1, 3, 6, 9, 10, 13, 16, 17, 19, 21], [0, 1, 6, 7, 8, 10, 12, 15, 16, 17, 20, 21]), 'rule': rule('saved iterators or conversions')},
    'C17': {'runs': [E('multi')], 'rule': 'Each case is a seeded history of 1 to 500 operations over up to 14 pairs of containers of different kinds (or hook and traits choices) that share the same elements; after every operation every container is compared with its model, every hook with whether its element should be inside, and the elements\' own data with what it was. Non-trivial: at least 3 operations took effect and some container held at least 2 elements. Distinct: different configuration or sequence of effective operations with different containers, sizes and positions.'},
    'C18': {'runs': [E('algo')], 'rule': 'Each case is a seeded history of 1 to 400 calls of the node-level functions on up to 40 list nodes in several rings or chains, or on two trees of up to some hundred nodes, each call with arguments that meet its documented requirements (positions, ranges and relatives drawn at random, adjacent and identical ones included); after every call all links and metadata are compared with the model. Non-trivial: at least 3 calls took effect and some structure had at least 2 nodes. Distinct: different sequence of effective calls with different positions and sizes.'},
    'C19': {'runs': [E('tree', [0, 2, 4, 5, 8, 9, 10, 12, 13, 14, 15, 17, 18, 20], 1.2), E('hash', [0, 1, 5, 7, 8, 10, 16, 17, 19, 21, 22], 0.8)], 'rule': rule('insertions with hints, two-phase or positional')},
    'C20': {'runs': G([0, 2, 11], [0, 2, 4, 14], [0, 4, 8, 9, 11, 12, 16, 19], [0, 1, 2, 6, 8, 10, 11, 16, 17, 21]), 'rule': rule('a comparison')},
    'C21': {'runs': [E('misc', [3, 4, 5], only=[3, 4, 5])], 'rule': 'Each case is a seeded sequence of 1 to 500 stores, reads, copies, casts and conversions on packed pointers of every supported number of bits and alignment (part 3) and of every supplied pointer kind (part 5), or of insertions, erasures and node exchanges on a tree with compact nodes next to one with plain nodes (part 4), compared after every step. Non-trivial: at least 3 operations took effect and at least 2 addresses (or elements) were involved. Distinct: different sequence of effective operations with different addresses, bits and sizes.'},
    'C22': {'runs': [E('misc', [0, 1, 2], only=[0, 1, 2]), E('hash', [1, 5, 9, 10], 1.0)], 'rule': 'Each case is a seeded configuration (bucket policy, size type, storage) and a sequence of hash values, bucket counts and requests (boundary values, neighbours of powers of two and of table entries, uniform values of random width), every answer compared with plain arithmetic; or a history of hashed container operations whose elements are looked up by bucket after every operation. Non-trivial: at least 3 operations took effect with at least 2 elements or bucket counts. Distinct: different configuration or sequence of arguments.'},
    'C23': {'runs': [E('misuse')], 'rule': 'Each case is a seeded history of correct operations (every insertion and removal form, transfers, swaps, moves, copies of elements, self-unlinking, destruction and re-creation of unlinked elements and of containers) on 3 to 6 containers sharing 40 elements with safe hooks, during which no safe-mode assertion may be raised, usually ended by one misuse: an already linked element given to a random insertion form of a random container, or destroyed while contained. The configured assertion must be raised, and at that moment all containers must still hold what they held. Non-trivial: at least 3 operations took effect and some container held at least 2 elements. Distinct: different sequence of effective operations with different forms, elements and sizes.'},
    'C24': {'runs': [E('check')], 'rule': 'Each case is a seeded history of 1 to 500 operations on two containers sharing 48 elements (insertions, erasures, ranges, swaps, moves, ordering, merging); check() must be silent after each. In between, one part of a container is damaged through its node traits (a link, an end, a colour, balance, key, priority, or an element taken out or put in behind the back of the stored size) and check() must report exactly when a reference predicate over the whole structure says it is no longer valid; the damage is undone and check() must be silent again. Non-trivial: at least 3 operations took effect, a container held at least 2 elements, and at least one was a damage or a check with additional user checks. Distinct: different configuration or sequence of effective operations with different sizes and positions.'},
    'C25': {'runs': [E('dhash')], 'rule': 'Each case is a seeded history of 1 to 500 insertions, unique insertions, lookups, erasures and rehashes, with keys of one type (integers, characters, enumerations, 128-bit integers, floating point with both zeros, infinities and arbitrary padding, pointers, arrays of up to three dimensions of those, classes with hash_value) on unordered containers with the default hash, compared after each with a sequence searched with ==; and of pairs of keys made equal in different ways, whose hashes must be equal. Non-trivial: at least 3 operations took effect and the containers held at least 2 elements. Distinct: different key type or sequence of effective operations with different keys and sizes.'},
    'C26': {'runs': [E('cost')], 'rule': 'Each case is a seeded history of 1 to 500 operations on two containers of up to about a thousand elements whose node traits count every link access and whose functors count every comparison, equality and hash call; after each operation the counts are compared with the bound documented for it. Non-trivial: at least 3 operations took effect and some container held at least 64 elements. Distinct: different configuration or sequence of effective operations with different sizes and positions.'},
    'C27': {'runs': [E('race')], 'rule': 'Each case is a seeded history of 1 to 500 operations on three pairs of containers, each pair with its elements and buckets in pages of its own. During an operation the pages of the uninvolved pairs are inaccessible and, for a reading operation, those of the involved ones read-only; objects with static storage duration are compared before and after. Non-trivial: at least 3 operations took effect. Distinct: different configuration or sequence of effective operations with different sizes.'},
    'C28': {'runs': [E('foot')], 'rule': 'Each case is a seeded history of 1 to 500 operations on two containers of up to about six thousand elements, degenerate trees among them. Every operation is run alone with the allocator observed, with the depth of the stack recorded by the node traits and functors it calls, and with elements that count their constructions, assignments and destructions and carry guard words. Non-trivial: at least 3 operations took effect and some container held at least 64 elements. Distinct: different configuration or sequence of effective operations with different sizes and positions.'},
}
