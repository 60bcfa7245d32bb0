SP = 'crates/pkt/src/space.rs'
RT = 'crates/pkt/src/rooted_space.rs'
SI = 'static analysis: abstract interpretation of the MIR of the packet crate on symbolic bytes; every outcome compared with the list of components'

prop('C25', 'A byte string is a space exactly if it is 0 to 8 well-formed components',
     'A space is a sequence of components, each one length byte followed by that many bytes. Space::from_slice, check_components and SpaceBytes::try_from_inner accept exactly the byte strings of at most 242 bytes that are at most 8 components of 1 to 200 bytes each with nothing left over; check_components gives the number of components. '
     'Anything else is an error, never a panic. checked_iter gives the components up to the first malformed one, then one error, then ends; over 242 bytes it is an error at once.',
     ['inputs'], 'all byte strings',
     'Spaces come from the network; everything behind the check indexes into them without further tests.',
     [SP], [('check_components', SP), ('checked_iter', SP), ('next_sp_c', SP)], SI, 'proof',
     'All strings of up to 8 (thorough: 11) symbolic bytes and boundary shapes (200/201, 242/243 bytes, 8/9 components, cut short) with symbolic contents.')

prop('C26', 'Building a space gives exactly its components, or an error at the limits',
     'try_push, try_push_front, try_append, try_prepend, try_join, extend_from_iter, try_from_iter and TryFrom<&[&[u8]]> give exactly the components of the space with the new ones behind (front and prepend: before) them, in order, if the result is a space (each component 1 to 200 bytes, at most 8, at most 242 bytes in all), and otherwise an error. '
     'push, push_front, join, FromIterator and space_buf give the same space and panic where the others return an error.',
     ['inputs'], 'all spaces and components',
     'A space that is built wrong addresses other packets than the user named, or makes packets that other readers reject.',
     [SP], [('try_push', SP), ('try_push_front', SP), ('try_prepend', SP), ('extend_from_iter', SP)], SI, 'proof',
     'All pairs of 14 shapes of spaces and 13 component sizes (thorough: about 150) around the limits; contents symbolic.')

prop('C27', 'The parts of a space are its components in order',
     'For every well-formed space: iter, to_array and SpaceBuf::components give its components in order; head and first the first one (none / empty for the empty space), tail and split_first the rest; parent, pop, split_last and truncate_last take off the last one; calc_depth counts them; size is the number of bytes. '
     'split_at(n) splits after n components, or gives the whole space and the empty one if there are fewer. track steps through it: upto are the components passed, component the next one, rest the ones from there. scan_space gives the first component, the first two, and so on up to the whole space. '
     'starts_with, strip_prefix and drop_prefix take a prefix exactly if it is made of the first components; strip_prefix gives none and drop_prefix panics if it is not.',
     ['inputs'], 'all well-formed spaces',
     'Routing, queries and the file and tree index are written in these operations.',
     [SP], [('split_last', SP), ('split_at', SP), ('strip_prefix', SP), ('track', SP), ('scan_space', SP)], SI, 'proof',
     'All shapes of up to 8 (thorough: 11) bytes and boundary shapes (8 components, 200 byte components, 242 bytes); contents symbolic.')

prop('C28', 'A rooted space has the one correct index and reads through it',
     'The rooted form of a space is its component count, the 7 end offsets of the first components (the last end for missing ones), then the space; the empty space may also be no bytes at all. RootedSpace::from and check_components accept exactly these byte strings; others are errors, never a panic. '
     'try_into_rooted, rooted, append, try_append_component, try_join, join, try_from_iter and rspace_buf make exactly these bytes, or an error (append, join, rooted, rspace_buf: a panic) exactly if the result would not be a space; a failed try_append_component leaves the value as it was. '
     'space, depth, is_empty, comp(i), comp0 to comp7, comps_bytes, components, last, iter, fields and range(a..b) of a rooted space are those of its list of components; components past the end are empty.',
     ['inputs'], 'all byte strings and spaces',
     'Every linkpoint carries a rooted space; the index is read without checks once accepted, and it is hashed, so two forms of one space would be two packets.',
     [RT, SP], [('RootedSpace::check_components', RT), ('try_append_component', RT), ('pre_idx_comp', RT), ('try_into_rooted', SP)], SI, 'proof',
     'The index bytes are symbolic for every shape of up to 8 (thorough: 11) bytes and boundary shapes; additionally up to 6 (thorough: 8) symbolic bytes behind a symbolic index.')
