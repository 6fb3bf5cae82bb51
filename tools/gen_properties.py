#!/usr/bin/env python3
"""writes properties.jsonl (one place to edit the statements)"""
import json, os
I = 'include/boost/intrusive/'
P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [I + f for f in files], 'mechanism': [{'name': n, 'where': I + w} for n, w in mech]}})


LIST = ['list.hpp', 'circular_list_algorithms.hpp']
SL = ['slist.hpp', 'linear_slist_algorithms.hpp', 'circular_slist_algorithms.hpp', 'detail/common_slist_algorithms.hpp']
TREE = ['bstree.hpp', 'bstree_algorithms.hpp', 'rbtree.hpp', 'rbtree_algorithms.hpp', 'avltree.hpp', 'avltree_algorithms.hpp', 'sgtree.hpp', 'sgtree_algorithms.hpp',
        'splaytree.hpp', 'splaytree_algorithms.hpp', 'treap.hpp', 'treap_algorithms.hpp', 'set.hpp', 'avl_set.hpp', 'sg_set.hpp', 'splay_set.hpp', 'treap_set.hpp', 'bs_set.hpp']
HASH = ['hashtable.hpp', 'unordered_set.hpp', 'unordered_set_hook.hpp', 'detail/hash_combine.hpp', 'detail/hash_integral.hpp', 'detail/hash_mix.hpp']
HOOK = ['detail/generic_hook.hpp', 'detail/node_holder.hpp', 'link_mode.hpp']

prop('C01', 'A doubly linked list is the sequence its history of operations describes',
     'After any sequence of valid operations on lists, walking a list forwards or backwards visits exactly the elements, in exactly the order, that the documented effects of those operations give, and every returned iterator or reference designates the documented position. '
     'This covers insertion, erasure, assignment, splicing, sorting, merging, reversing, removing, uniquing, rotating, swapping and moving, on any number of lists exchanging elements.',
     ['histories', 'inputs', 'configurations'],
     'every history of operations over several lists, every choice of elements and positions, every list configuration (size counting, hook kind, link mode, pointer type, header holder)',
     'The tests run a fixed script on a few elements for each configuration; the defects live in operation interactions, positions (first/last/empty/self) and sizes they never combine.',
     LIST, [('node linking and transfer', 'circular_list_algorithms.hpp'), ('list operations', 'list.hpp')])
prop('C02', 'A singly linked list is the sequence its history of operations describes',
     'After any sequence of valid operations on singly linked lists, walking a list visits exactly the elements, in exactly the order, that the documented effects give, and every returned iterator or reference designates the documented position. '
     'It holds alike for circular and for null-terminated lists, and where the list remembers its last element, appending and last-element access always refer to the true last element.',
     ['histories', 'inputs', 'configurations'],
     'every history over several singly linked lists and every configuration (linear or circular, remembering the last element or not, counting its size or not, hook kind, link mode, pointer type)',
     'The remembered last element and the null terminator are only wrong after particular operations touch the tail; tests use fixed scripts on short lists.',
     SL, [('last-node bookkeeping', 'slist.hpp'), ('linear and circular node algorithms', 'linear_slist_algorithms.hpp')])
prop('C03', 'Ordered sets and multisets hold and find exactly what was put in them',
     'After any sequence of valid operations, walking an ordered associative container visits its elements sorted by the comparison, holding exactly the elements inserted and not since removed, with equivalent keys refused by the sets and accepted by the multisets. '
     'Every lookup, bound, range, count, insertion and erasure returns the documented result, for element arguments and for foreign keys with a compatible comparison.',
     ['histories', 'inputs', 'configurations'],
     'every history of insertions, erasures, lookups and bulk operations, every key distribution, on the red-black, AVL, scapegoat, splay, treap and unbalanced containers and their hook and size options',
     'Tests insert a handful of fixed keys; wrong results need particular tree shapes and key multiplicities reached only by longer histories.',
     TREE, [('search and bounds', 'bstree_algorithms.hpp'), ('container operations', 'bstree.hpp')])
prop('C04', 'Balanced trees keep their shape guarantees after every operation',
     'After any sequence of valid operations every tree is a well-formed binary search tree whose stored first, last and root are the true ones, and it obeys the rule of its kind: no red element has a red child and all paths carry equally many black elements; the heights of two siblings differ by at most one; a treap has no element with less priority rank than its parent; a scapegoat tree stays within its height bound. '
     'Consequently the depth of the self-balancing trees stays logarithmic in the number of elements, and a splay tree brings what it is asked to bring to the root.',
     ['histories', 'inputs', 'configurations'],
     'every history of insertions and erasures and every order of keys and priorities, including rebuilding, moving, swapping and cloning trees',
     'A tree can answer every lookup correctly while having lost its balance, so functional tests cannot see it; rebalancing has many symmetric cases reached only by particular insertion and erasure orders.',
     TREE[1:12], [('insertion and erasure rebalancing', 'rbtree_algorithms.hpp'), ('insertion and erasure rebalancing', 'avltree_algorithms.hpp'), ('rebuild on imbalance', 'sgtree_algorithms.hpp'), ('priority rotations', 'treap_algorithms.hpp'), ('splaying', 'splaytree_algorithms.hpp')])
prop('C05', 'Hashed sets and multisets hold and find exactly what was put in them',
     'After any sequence of valid operations, a hashed container holds exactly the elements inserted and not since removed, visits each exactly once, keeps equivalent elements adjacent, refuses equivalent elements in sets and accepts them in multisets, and every lookup, count, range, insertion and erasure returns the documented result. '
     'It holds for every hash function and bucket count, and for every combination of the storage options.',
     ['histories', 'inputs', 'configurations'],
     'every history, every hash function (including constant and badly distributed ones), every bucket count, every combination of stored hashes, grouped equivalents, compared hashes, remembered first bucket, incremental growth, linear buckets, power-of-two and fast-modulus buckets',
     'The options combine to many code paths and collisions decide which is taken; tests use a few combinations and small fixed key sets.',
     HASH, [('bucket search, insertion and erasure', 'hashtable.hpp'), ('group bookkeeping', 'unordered_set_hook.hpp')])
prop('C06', 'Rehashing, in full or in increments, never changes the contents',
     'Changing the bucket array of a hashed container, fully or one increment at a time, growing or shrinking, in place or into a new array, keeps exactly the same elements, each still findable, equivalent elements adjacent, and no element moved in memory or unlinked on the way. '
     'The bucket count and split position reported afterwards are the documented ones, and further operations behave as on a container that had that array from the start.',
     ['histories', 'inputs', 'configurations'],
     'every interleaving of full and incremental rehashes with insertions and erasures, every bucket count and every storage option',
     'Tests rehash a small fixed set a few times; losing a group or leaving an element in the wrong bucket depends on which buckets are occupied and on the order of increments.',
     ['hashtable.hpp', 'unordered_set.hpp'], [('full rehash', 'hashtable.hpp'), ('incremental rehash', 'hashtable.hpp')])
prop('C07', 'A hook says it is linked exactly while its element is in a container',
     'For hooks that report their state, at every moment the hook reports being linked if and only if the element is held by a container (only the element that ends a null-terminated list or bucket may say it is not): insertion links it, and every way of leaving the container (erasing, popping, clearing, removing, moving out, destroying or reassigning the container, being handed to a disposer) unlinks it. '
     'Copying or assigning an element neither links, unlinks nor moves anything, and exchanging two hooks exchanges exactly their positions.',
     ['histories', 'configurations'],
     'every history of operations of every container kind with self-reporting hooks, every way of entering and leaving a container',
     'Tests look at the state of few elements after few operations; a path that forgets to reset one hook shows only on that path.',
     HOOK + ['list.hpp', 'slist.hpp', 'bstree.hpp', 'hashtable.hpp'], [('state reset on removal', 'detail/node_holder.hpp'), ('hook construction, copy, destruction', 'detail/generic_hook.hpp')])
prop('C08', 'Elements that unlink themselves leave the rest of the container intact',
     'An element with a self-unlinking hook that is destroyed, or asked to unlink, while contained leaves its container at once: the container then holds exactly the other elements in their order, fully usable, and nothing ever refers to the departed element. '
     'On an element that is in no container it has no effect.',
     ['histories', 'configurations'],
     'every point of every history at which an element may unlink itself or be destroyed, in lists, trees and hashed containers',
     'Tests unlink a few chosen elements from freshly filled containers; the first, last, root, only or grouped element at an arbitrary moment are different code paths.',
     HOOK + ['circular_list_algorithms.hpp', 'bstree_algorithms.hpp', 'unordered_set_hook.hpp'], [('unlink without the container', 'detail/generic_hook.hpp'), ('header-free unlink', 'bstree_algorithms.hpp'), ('group unlink', 'unordered_set_hook.hpp')])
prop('C09', 'Disposers receive each removed element exactly once, already unlinked',
     'Every operation that takes a disposer calls it exactly once for each element it removes and for no other, after its hook has been reset (and, where single elements or parts of lists and ordered containers are erased, after the container has stopped reaching it), so that the disposer may destroy or change it or put it into another container at once. '
     'Operations without a disposer never destroy elements, and elements that stay are never passed to the disposer.',
     ['histories', 'inputs', 'configurations'],
     'every disposing operation of every container, every range, predicate, key and multiplicity, disposers that destroy the element immediately',
     'A disposer called twice, too early, or not at all for one range boundary or equivalent key is not seen by tests that count a fixed small case.',
     ['list.hpp', 'slist.hpp', 'bstree.hpp', 'bstree_algorithms.hpp', 'hashtable.hpp', 'detail/node_to_value.hpp', 'circular_list_algorithms.hpp'], [('disposal after unlinking', 'list.hpp'), ('whole-tree disposal', 'bstree_algorithms.hpp'), ('bucket disposal', 'hashtable.hpp')])
prop('C10', 'Cloning reproduces the source exactly and leaves it untouched',
     'Cloning into a container first hands all its former elements to the disposer, then calls the cloner exactly once per source element and ends with exactly the clones, in an order and structure equivalent to the source, fully usable by later operations. '
     'The source is unchanged, and the comparison, hash and other function objects of the source go along where the documentation says so.',
     ['histories', 'inputs', 'configurations'],
     'every source contents and shape, every earlier contents of the destination, any bucket counts, every container kind',
     'Clones of particular shapes (a root that is first or last, uneven trees, more source buckets than destination buckets, groups) take different paths; tests clone one fixed container and compare little.',
     ['list.hpp', 'slist.hpp', 'bstree.hpp', 'bstree_algorithms.hpp', 'hashtable.hpp'], [('tree cloning', 'bstree_algorithms.hpp'), ('hash cloning', 'hashtable.hpp'), ('sequence cloning', 'list.hpp')])
prop('C11', 'A cloning that fails part-way leaks nothing and leaves containers valid',
     'If the cloner throws at any call, the exception reaches the caller, every clone made so far is handed to the disposer exactly once and unlinked, the destination is empty and usable, and the source is unchanged.',
     ['fault_sequences', 'inputs', 'configurations'],
     'every call at which the cloner may throw, for every source contents and container kind',
     'The tests never make a cloner throw; each position inside the recursion or bucket loop leaves a different partial structure to undo.',
     ['list.hpp', 'slist.hpp', 'bstree_algorithms.hpp', 'hashtable.hpp', 'detail/exception_disposer.hpp'], [('rollback guard', 'detail/exception_disposer.hpp'), ('subtree rollback', 'bstree_algorithms.hpp'), ('bucket rollback', 'hashtable.hpp')])
prop('C12', 'A throwing comparison, hash or predicate leaves every container valid',
     'If a user-supplied comparison, equality, hash, priority or predicate throws at any call inside an operation, the exception reaches the caller and no element is lost, duplicated or left half linked: each is in exactly one container or reported as unlinked, and all containers remain fully usable. '
     'Operations documented with the strong guarantee leave the containers as they were, and documented basic guarantees leave valid contents whose size is right.',
     ['fault_sequences', 'histories', 'configurations'],
     'every call of every functor inside every operation that may throw, at every state of the containers',
     'The tests do not inject exceptions; the intermediate state at the moment of the throw differs for each call.',
     ['list.hpp', 'slist.hpp', 'bstree.hpp', 'treap.hpp', 'splaytree_algorithms.hpp', 'hashtable.hpp'], [('decide, then link', 'bstree.hpp'), ('rollback on failed rehash', 'hashtable.hpp'), ('sort and merge with temporaries', 'list.hpp')])
prop('C13', 'The reported size always equals the number of elements',
     'At every moment the reported size equals the number of elements a traversal visits and emptiness is reported exactly when there are none, whether the size is counted or computed, including after bulk transfers, merges, swaps, clones, partial failures and self-unlinking.',
     ['histories', 'configurations'],
     'every history of every container kind with and without size counting',
     'A counter that is off by one after one rare operation goes unnoticed unless the size is compared with a traversal after every operation.',
     ['detail/size_holder.hpp', 'list.hpp', 'slist.hpp', 'bstree.hpp', 'hashtable.hpp'], [('size counter', 'detail/size_holder.hpp')])
prop('C14', 'Moving elements between containers neither loses nor duplicates any',
     'Splicing, merging, swapping, move construction, move assignment and incremental transfers between containers conserve the elements: what leaves one container arrives in the other exactly once, in the documented order, nothing else moves, and both containers remain valid and usable. '
     'Merging associative containers moves exactly the elements the destination accepts and leaves the others.',
     ['histories', 'configurations'],
     'every pair of container states, ranges, positions, empty and self-related cases, every configuration of the two containers',
     'Tests transfer fixed ranges between two small containers; the corner cases (empty sides, adjacent or tail ranges, same container) each have their own pointer updates.',
     ['list.hpp', 'slist.hpp', 'bstree.hpp', 'bstree_algorithms.hpp', 'hashtable.hpp', 'circular_list_algorithms.hpp'], [('range transfer', 'circular_list_algorithms.hpp'), ('header swap', 'bstree_algorithms.hpp'), ('merge', 'bstree.hpp')])
prop('C15', 'Equivalent elements keep their relative order',
     'Sorting and merging lists keeps the relative order of equivalent elements, with the elements of the destination before those of the source, and uniquing keeps the first of each run. '
     'In multisets an insertion without a hint places the element after all its equivalents, the positional forms place it where they document, and no rebalancing, erasure, clone or rebuild changes the order of equivalents.',
     ['histories', 'inputs'],
     'every arrangement of equivalent elements, every length and comparison',
     'Instability only shows with equivalent but distinguishable elements in specific arrangements; tests sort a few small integers.',
     ['list.hpp', 'slist.hpp', 'bstree.hpp', 'bstree_algorithms.hpp', 'hashtable.hpp'], [('merge sort', 'list.hpp'), ('upper-bound insertion', 'bstree_algorithms.hpp')])
prop('C16', 'Iterators stay valid as documented and convert faithfully',
     'An iterator to an element designates that element and steps to its current neighbours for as long as the element is contained, across insertions, erasures of others, rebalancing, sorting, and, for lists and trees, swaps and transfers to another container (rehashing or exchanging hashed containers is documented to invalidate their iterators). '
     'Obtaining an iterator from an element, a container from its end iterator or from any iterator, and a constant iterator from a mutable one yields the documented object, and forward and backward traversals mirror each other.',
     ['histories', 'configurations'],
     'every history between taking and using an iterator, every container kind',
     'Tests use iterators right after getting them; validity across later operations is a statement about all histories.',
     ['detail/list_iterator.hpp', 'detail/slist_iterator.hpp', 'detail/tree_iterator.hpp', 'detail/hashtable_node.hpp', 'list.hpp', 'slist.hpp', 'bstree.hpp', 'hashtable.hpp'], [('increment and decrement', 'detail/tree_iterator.hpp'), ('bucket-to-bucket increment', 'detail/hashtable_node.hpp'), ('element to iterator', 'bstree.hpp')])
prop('C17', 'Every hook, pointer and traits choice gives the same behaviour, independently',
     'A container behaves identically whether its elements use base hooks, tagged hooks, member hooks, function hooks, the universal hooks, custom value traits (stateful or not), compact or plain nodes, and plain or fancy pointers. '
     'An element with several hooks can be in as many containers at once, and whatever happens in one container never affects its membership or order in the others.',
     ['histories', 'configurations'],
     'every combination of hook kind, pointer type, traits and container kind, every interleaving of operations on the containers that share elements',
     'Tests instantiate many hook kinds but run each alone with the same short script; cross-effects need interleaved histories on shared elements.',
     HOOK + ['any_hook.hpp', 'detail/any_node_and_algorithms.hpp', 'parent_from_member.hpp', 'member_value_traits.hpp', 'derivation_value_traits.hpp', 'trivial_value_traits.hpp', 'bs_set_hook.hpp', 'detail/hook_traits.hpp', 'detail/get_value_traits.hpp'],
     [('element from hook and back', 'detail/hook_traits.hpp'), ('universal node', 'detail/any_node_and_algorithms.hpp'), ('member offset', 'detail/parent_from_member.hpp')])
prop('C18', 'The node-level algorithms do what they document on any structure',
     'Each documented low-level function on list, singly linked list and tree nodes, given structures and arguments that meet its requirements, leaves exactly the structure it documents and returns the documented node or count. '
     'This holds for every size, position, rotation amount and pair of nodes, including adjacent, identical, first, last and unlinked ones.',
     ['inputs', 'histories', 'configurations'],
     'every structure and every argument meeting the requirements, for circular and linear lists and for all tree kinds',
     'The tests call them with one or two positions on tiny structures; adjacency, symmetry and boundary cases decide whether pointers are rewired correctly.',
     ['circular_list_algorithms.hpp', 'circular_slist_algorithms.hpp', 'linear_slist_algorithms.hpp', 'detail/common_slist_algorithms.hpp', 'bstree_algorithms.hpp', 'rbtree_algorithms.hpp', 'avltree_algorithms.hpp', 'sgtree_algorithms.hpp', 'splaytree_algorithms.hpp', 'treap_algorithms.hpp'],
     [('node swap, replacement and rotation', 'bstree_algorithms.hpp'), ('shift, swap and transfer', 'circular_list_algorithms.hpp')])
prop('C19', 'Hints and two-phase insertions never change what gets inserted',
     'Inserting with any hint, good or bad, gives the same contents as inserting without one, with the element placed as near to the hint as the order of equivalents allows, as documented. '
     'Checking first and committing later inserts exactly when the check allowed it and at the right place, and positional insertions whose preconditions hold keep the container valid.',
     ['histories', 'inputs', 'configurations'],
     'every hint position, every key relation to the hint, every container state, every pair of check and commit',
     'Tests try begin or end hints on sorted input; wrong hints beside equivalents take separate branches.',
     ['bstree_algorithms.hpp', 'bstree.hpp', 'treap_algorithms.hpp', 'treap.hpp', 'hashtable.hpp', 'rbtree.hpp'], [('hint checking', 'bstree_algorithms.hpp'), ('check and commit', 'bstree.hpp'), ('check and commit', 'hashtable.hpp')])
prop('C20', 'Container comparisons agree with their elements',
     'Equality of two containers holds exactly when they have equal sizes and pairwise equal elements, in sequence order for lists and ordered containers and irrespective of order for hashed ones. '
     'Ordering operators agree with the lexicographical order of the elements, and all operators are consistent with each other.',
     ['inputs', 'configurations'],
     'every pair of container contents, including equal, prefix, permuted and repeated elements, and different bucket arrays',
     'Tests compare one or two pairs; hashed comparison of repeated elements in different order and prefixes need generated pairs.',
     ['list.hpp', 'slist.hpp', 'bstree.hpp', 'hashtable.hpp', 'detail/algorithm.hpp'], [('element-wise comparison', 'detail/algorithm.hpp'), ('unordered comparison', 'hashtable.hpp')])
prop('C21', 'Packing bits into pointers never corrupts the pointer or the bits',
     'For every sufficiently aligned address, the null pointer and every storable bit value, reading back a packed pointer and its bits gives what was last stored, setting one never changes the other, and trees with compact nodes always answer as trees with separate fields. '
     'Pointer conversions, casts and rebinds supplied for plain and fancy pointers refer to the same object.',
     ['inputs', 'configurations'],
     'every address and bit pattern, every sequence of stores, every supported number of bits and alignment',
     'Tests use two or three addresses; a wrong mask shows only for particular addresses or bit values.',
     ['pointer_plus_bits.hpp', 'pointer_traits.hpp', 'pointer_rebind.hpp', 'detail/rbtree_node.hpp', 'detail/avltree_node.hpp', 'detail/uncast.hpp'], [('mask and store', 'pointer_plus_bits.hpp'), ('compact node accessors', 'detail/rbtree_node.hpp'), ('casts', 'pointer_traits.hpp')])
prop('C22', 'Every hash value maps to a valid bucket, consistently',
     'For every hash value and every admissible bucket count, the bucket chosen is within the array and the same each time, fast modulus equals the true modulus, incremental splitting addresses exactly the active buckets, and an element can always be found in the bucket where its hash says. '
     'Suggested bucket counts are admissible, never below the request while a large enough one exists, monotone in the request, and nearest to it (no other suggestible count lies in between).',
     ['inputs', 'configurations'],
     'every hash value, every bucket count up to the largest supported, every option (modulus, mask, fast modulus, split)',
     'Tests ask for a few counts and hash small integers; the arithmetic is only wrong for large hashes, extreme counts or table boundaries.',
     ['hashtable.hpp', 'detail/hash_integral.hpp', 'unordered_set.hpp'], [('hash to bucket', 'hashtable.hpp'), ('prime tables and fast modulus', 'hashtable.hpp'), ('integer logarithms', 'detail/math.hpp')])
prop('C23', 'Safe hooks detect misuse at the moment it happens, and only then',
     'With self-checking hooks, inserting an element whose hook is already linked and destroying an element that is still contained are reported by the configured assertion at that operation, before anything is corrupted. '
     'On correct use no such assertion is ever raised, whatever the history.',
     ['histories', 'configurations', 'fault_sequences'],
     'every insertion form of every container with an already linked element, every destruction of a contained element, and every correct history',
     'The tests do not provoke misuse at all; each insertion form has its own check that can be dropped unnoticed.',
     HOOK + ['list.hpp', 'slist.hpp', 'bstree.hpp', 'treap.hpp', 'sgtree.hpp', 'splaytree.hpp', 'hashtable.hpp', 'intrusive_fwd.hpp', 'detail/assert.hpp'], [('unlinked check on insertion', 'list.hpp'), ('destructor check', 'detail/generic_hook.hpp')])

prop('C24', 'check() accepts every valid container and reports every damaged one',
     'The integrity check of the lists and the ordered containers never raises its assertion on a container produced by any history of correct operations, empty ones included, in every configuration. '
     'It does raise it when a link or cached end of the container is wrong, when the stored size does not match, or when the order, the colours, the balances or the priorities are not those of a valid container of that kind. '
     'The additional checks the user supplies for an ordered container are called exactly once for each element, with the results obtained for its two children.',
     ['histories', 'configurations', 'fault_sequences'],
     'every history of correct operations, and every single damage of links, metadata, keys, priorities or size of the container it leads to',
     'The tests call check() on a few healthy containers, and never on a damaged one, so a check that tests nothing, or one that rejects a rare valid state, goes unnoticed.',
     ['list.hpp', 'slist.hpp', 'bstree.hpp', 'bstree_algorithms.hpp', 'rbtree_algorithms.hpp', 'avltree_algorithms.hpp', 'treap.hpp', 'treap_algorithms.hpp', 'detail/empty_node_checker.hpp'], [('check', 'list.hpp'), ('check', 'slist.hpp'), ('check(ExtraChecker)', 'bstree.hpp'), ('bstree_node_checker', 'bstree_algorithms.hpp'), ('rbtree_node_checker', 'rbtree_algorithms.hpp'), ('avltree_node_checker', 'avltree_algorithms.hpp'), ('treap_node_extra_checker', 'treap_algorithms.hpp')])

prop('C25', 'The default hash agrees with equality for every kind of key',
     'The hash function used when the user supplies none gives equal values for keys that compare equal, whatever their representation (the two floating point zeros, padding, qualification, the individual elements of arrays), for every type it accepts, in every run of the container. '
     'Unordered containers that use it therefore find, count, keep unique and erase exactly the keys that equality says are there.',
     ['inputs', 'configurations'],
     'every pair of equal keys of every supported type, every sequence of operations on containers that use the default hash',
     'Tests hash a handful of values of a few types; inequality of equal keys shows only for particular values, such as negative zero or a long double with different padding.',
     ['detail/hash.hpp', 'detail/hash_combine.hpp', 'detail/hash_integral.hpp', 'detail/hash_mix.hpp', 'hashtable.hpp'], [('default hash', 'detail/hash.hpp'), ('integers', 'detail/hash_integral.hpp'), ('combination of elements', 'detail/hash_combine.hpp'), ('use by the containers', 'hashtable.hpp')])

prop('C26', 'Every operation keeps its documented complexity',
     'For every container state, the number of links followed or changed and of calls of the user\'s functors stays within the complexity the documentation gives: constant, logarithmic or linear for each operation, size() and cached ends constant when the options say so, counted and whole-container transfers constant, '
     'insertion with a right hint amortized constant, no comparison or hash call where the position, stored hash or commit data make it unnecessary, at most size()+x.size()-1 comparisons for merging lists, size()-1 for unique(), size() for remove(), N log N for sorting, and one hash call for a hashed lookup or insertion. '
     'Comparisons of splay containers are not bounded.',
     ['inputs', 'histories', 'configurations'],
     'every history and size of every container, every configuration of options that changes a documented complexity',
     'The tests never measure cost: an operation that gets slower by a factor that grows with the size still gives the right result.',
     ['list.hpp', 'slist.hpp', 'bstree.hpp', 'rbtree.hpp', 'avltree.hpp', 'sgtree.hpp', 'splaytree.hpp', 'treap.hpp', 'hashtable.hpp', 'bstree_algorithms.hpp', 'sgtree_algorithms.hpp', 'detail/common_slist_algorithms.hpp', 'detail/algorithm.hpp'],
     [('list operations', 'list.hpp'), ('singly linked list operations', 'slist.hpp'), ('ordered container operations', 'bstree.hpp'), ('hinted insertion', 'bstree_algorithms.hpp'), ('weight balance', 'sgtree_algorithms.hpp'), ('hashed operations, stored hash', 'hashtable.hpp')])

prop('C27', 'Separate containers are independent, and reading writes nothing',
     'An operation touches no memory but that of the containers given to it, their elements and their buckets, so that threads can use different containers with different elements at the same time. '
     'Operations on a constant container, lookups that the documentation does not say restructure it, walking it, comparing it, checking it and copying from it write nothing at all, so that threads can read the same container at the same time. '
     'No mutable state is shared between containers.',
     ['histories', 'configurations', 'schedules'],
     'every history, every reading operation in every state of every container, and so every schedule of operations on different containers or of reading operations on the same one',
     'The tests are single threaded: a read that writes, even the value that was already there, or scratch state shared between containers, gives the right result in every one of them.',
     ['list.hpp', 'slist.hpp', 'bstree.hpp', 'bstree_algorithms.hpp', 'rbtree.hpp', 'avltree.hpp', 'sgtree.hpp', 'splaytree.hpp', 'splaytree_algorithms.hpp', 'treap.hpp', 'hashtable.hpp', 'detail/generic_hook.hpp', 'detail/tree_iterator.hpp', 'detail/hashtable_node.hpp'],
     [('constant lookups', 'bstree.hpp'), ('constant lookups of splay trees', 'splaytree.hpp'), ('list reading', 'list.hpp'), ('unordered reading and bucket arithmetic', 'hashtable.hpp'), ('is_linked', 'detail/generic_hook.hpp')])

prop('C28', 'No operation allocates memory, copies elements or needs growing stack',
     'The containers only link elements the user owns. For every operation on every container (check() apart, which is a debugging aid) and any number of elements, in any shape the container can take: no memory is allocated or released; no element is constructed, copied, moved, assigned or destroyed, and nothing in it but its hook is written, nor is its unary & used, which the type may have overloaded; '
     'no exception is thrown that a functor of the user did not throw; and the stack needed does not grow with the number of elements, also when a tree without balance has degenerated into a chain.',
     ['histories', 'inputs', 'configurations'],
     'every history, size and shape of every container',
     'The tests use a few elements: recursion as deep as the tree or scratch memory as large as the range gives the right result in every one of them.',
     ['list.hpp', 'slist.hpp', 'bstree.hpp', 'bstree_algorithms.hpp', 'rbtree.hpp', 'avltree.hpp', 'sgtree.hpp', 'sgtree_algorithms.hpp', 'splaytree.hpp', 'splaytree_algorithms.hpp', 'treap.hpp', 'hashtable.hpp', 'detail/common_slist_algorithms.hpp', 'circular_slist_algorithms.hpp', 'circular_list_algorithms.hpp'],
     [('cloning, disposal and rebalancing of trees', 'bstree_algorithms.hpp'), ('sorting and merging lists', 'list.hpp'), ('sorting and reversing singly linked lists', 'slist.hpp'), ('rehashing', 'hashtable.hpp'), ('splaying', 'splaytree_algorithms.hpp')])

if __name__ == '__main__':
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(p, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
