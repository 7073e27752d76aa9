import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
D='netcode/detail/decoder.cc'; E='netcode/encoder.hh'; DH='netcode/decoder.hh'; PK='netcode/detail/packetizer.hh'
p('C01','Delivered data are exactly data that were submitted',
 'Every data the decoder hands to its data handler is byte for byte, and with exactly the same length, one of the data that was given to the encoder it is paired with, whether it arrived directly or was rebuilt from repairs. This holds for every Galois field size (4, 8, 16, 32), every mix of data sizes that the API accepts, and every pattern of loss, duplication, reordering and acknowledgement.',
 ['inputs','schedules','histories','configurations'],
 'All data contents and sizes, all four field sizes, all interleavings of losses/duplicates/reorderings/acks, ordered or not, systematic or not.',
 'The unit tests rebuild a few hand-picked sources in a fixed order with tiny windows, and the end-to-end test uses one field, equal sizes and uniform loss; the reconstruction path taken depends on the whole history of received packets.',
 [D,'netcode/detail/encoder.cc','netcode/detail/galois_field.hh','netcode/detail/invert_matrix.cc',DH],
 [('reconstruction from one repair','decoder::create_source_from_repair'),('removal of known data from repairs','decoder::remove_source_data_from_repair'),('full decoding','decoder::attempt_full_decoding')],
 [('stored repairs','linear equations over unknown data','detail::decoder::m_repairs')],['data handler calls'])
p('C02','A data is delivered at most once',
 'During the lifetime of a decoder, each data submitted to the paired encoder is handed to the data handler at most once. Duplicated, late or reordered packets, and repairs that encode already delivered data, never cause a second delivery.',
 ['schedules','histories','fault_sequences'],'All sequences of packets of one encoder delivered to one decoder, with any duplication and reordering.',
 'Duplicates are only tested for immediate re-reception; a second delivery needs a duplicate or late packet combined with particular window movements.',
 [D],[('duplicate and outdated filters','decoder::operator()'),('horizon','decoder::drop_outdated')],[('known sources','received or decoded sources still in the window','detail::decoder::m_sources'),('horizon','smallest identifier still of interest','detail::decoder::m_last_id')],['data handler calls'])
p('C03','In-order mode delivers in submission order and skips only abandoned data',
 'A decoder created in in-order mode delivers data in strictly increasing order of submission. It passes over a data only once a received repair shows that the encoder gave up that data (it no longer is in the sending window), and data received or rebuilt but held back at that moment are delivered, in order, rather than lost.',
 ['schedules','histories'],'All packet histories given to an in-order decoder.',
 'Ordering depends on when sources arrive, are decoded and are abandoned relative to one another; the tests check a few short sequences.',
 [D,DH],[('flush of held sources','decoder::flush_ordered_sources'),('flush when the window moves','decoder::drop_outdated')],[('next expected','first identifier not yet delivered nor skipped','detail::decoder::m_first_missing_source_in_order')],['data handler calls'])
p('C04','No data that can be delivered is withheld',
 'When a call on the decoder returns, no data obtained so far (received, or rebuilt) is being withheld without cause: an unordered decoder has delivered it within the call that obtained it, and an in-order decoder has delivered it as soon as every earlier data has been delivered or abandoned. Only data received late, after the encoder was known to have abandoned it, is discarded instead.',
 ['schedules','histories'],'All packet histories, both ordering modes, all field sizes.',
 'Which held data become deliverable after a packet depends on the history; tests only cover a few.',
 [D],[('delivery on reception/decoding','decoder::add_source_recursive'),('delivery after full decoding','decoder::attempt_full_decoding')],(),['data handler calls'])
p('C05','Repairs are used to full effect',
 'As soon as a received repair, together with the data the decoder holds, leaves a single unknown data, that data is rebuilt within the same call, and so are those that become computable in turn. As soon as the repairs held provide as many linearly independent equations as there are missing data, all the missing data are rebuilt; a linearly dependent repair never costs the decoder information.',
 ['schedules','histories','inputs'],'All subsets and orders of received sources and repairs, all coefficient matrices including singular ones.',
 'Singular or chained reconstructions need specific identifiers and arrival orders; tests have a handful of them.',
 [D,'netcode/detail/invert_matrix.cc'],[('peeling','decoder::add_source_recursive'),('matrix inversion','detail::invert'),('removal of dependent repair','decoder::attempt_full_decoding')],[('missing sources','unknown data referenced by stored repairs','detail::decoder::m_missing_sources')],['data handler calls','nb_missing_sources()','nb_decoded()'])
p('C06','Once loss stops, everything in the window gets through',
 'From any reachable state, if from then on the encoder keeps generating repairs, those repairs reach the decoder and the acknowledgements come back, then every data still in the sending window is delivered (or had been already) and the sending window becomes empty. This requires no retransmission of sources and takes a bounded number of exchanges, as long as the window spans fewer identifiers than the field has elements.',
 ['schedules','histories','fault_sequences'],'All states reachable through arbitrary loss/duplication/reordering followed by a loss-free phase.',
 'It is a liveness property over all reachable states of two peers; the tests run one lossy schedule.',
 [E,D,DH],[('repair generation','encoder::generate_repair'),('acknowledgement','encoder::notify_impl'),('decoding','decoder::attempt_full_decoding')],(),['data handler calls','encoder window()'])
p('C07','Acknowledgements are truthful and exact',
 'An acknowledgement lists only data that the decoder actually received or rebuilt; when its generation is forced it lists exactly those that are still relevant (not abandoned), and it announces the exact number of source and repair packets received since the previous acknowledgement. On the encoder side an acknowledgement removes from the window exactly the listed data that are still there, and nothing else.',
 ['schedules','histories','inputs'],'All histories of receptions and acknowledgements, including lost, duplicated and reordered acknowledgements, and all identifier lists.',
 'A false acknowledgement loses data only later, when the encoder stops protecting it.',
 [DH,E,'netcode/detail/ack.hh','netcode/detail/source_list.hh'],[('ack construction','decoder::generate_ack'),('window update','source_list::erase')],[('packets counter','packets received since last ack','detail::ack')],['acks given to the packet handler','encoder window()'])
p('C08','The sending window holds the newest unacknowledged data within its limit',
 'After each data is submitted, the encoder\'s window holds at most the configured number of data; it holds every submitted data that has neither been acknowledged nor evicted, and only the oldest data are evicted, when room is needed and no more than needed. The limit applies as soon as it is set, also when it is lowered between two data.',
 ['histories','configurations'],'All sequences of submissions, acknowledgements and limit changes.',
 'Tests use one limit and a few data; holes left by acknowledgements combined with eviction are not covered.',
 [E,'netcode/detail/source_list.hh'],[('eviction','encoder::commit_impl')],[('window','unacknowledged sources','encoder::m_sources')],['encoder window()','identifiers listed by repairs'])
p('C09','A repair encodes exactly the window, correctly, under a fresh identifier',
 'Each repair packet lists exactly the identifiers of the data in the encoder\'s window, bears an identifier never used before (they are consecutive from 0), and carries the linear combination of those data, and of their sizes, over the Galois field with the published coefficients of this repair and each data. It is as long as the longest data it encodes.',
 ['inputs','histories','configurations'],'All windows, all contents and sizes, all field sizes, all identifiers reached during long sessions.',
 'Tests compare encode/decode for a few tiny windows; compensating errors on both sides or rare identifiers/sizes escape them.',
 [E,'netcode/detail/encoder.cc','netcode/detail/galois_field.hh','netcode/detail/repair.hh'],[('combination','detail::encoder::operator()'),('coefficients','galois_field::coefficient')],(),['packets given to the packet handler'])
p('C10','Packets are emitted on schedule',
 'In systematic mode each submitted data immediately yields one source packet carrying it unchanged with consecutive identifiers, and in non-systematic mode one repair instead; additionally one repair follows each data whose rank is a multiple of the code rate in force. Forcing a repair emits exactly one repair, or nothing if the window is empty, and nothing else makes the encoder emit packets.',
 ['histories','configurations'],'All sequences of submissions, forced repairs, acknowledgements and parameter changes.',
 'Tests use constant parameters and few data; interactions of mode/rate changes and acknowledgements are not covered.',
 [E],[('emission','encoder::commit_impl'),('forced repair','encoder::generate_repair')],[('rate','sources per repair','encoder::m_rate')],['packets given to the packet handler'])
p('C11','The adaptive code rate follows the reported loss',
 'In adaptive mode, each acknowledgement sets the code rate from the loss it reveals: with loss the proportion of packets emitted since the previous acknowledgement that it does not report as received, the rate becomes 50 if the loss is below 1% (or nothing was emitted), and otherwise 1/(2 x loss) rounded up. When adaptive mode is off, the code rate never changes by itself.',
 ['histories','inputs'],'All histories of emissions and acknowledgements (up to floating point rounding of the quotient).',
 'Tests check one or two ratios; the count of emitted packets depends on every emission path and on mode switches.',
 [E],[('rate computation','encoder::rate_for_loss'),('count of sent packets','encoder::m_nb_sent_packets')],(),['encoder rate()'])
p('C12','Automatic acknowledgements are sent when due, and only then',
 'Whenever it delivers data, the decoder sends an acknowledgement by itself if at least the configured number of packets (itself capped at 128) were received since the last acknowledgement, or if the configured period is not null and has elapsed since the last automatic acknowledgement. It sends no acknowledgement otherwise except on request, and never more than one per received packet.',
 ['schedules','histories','configurations'],'All arrival patterns, clock values and parameter settings.',
 'Real time is involved; tests sleep for one or two periods.',
 [DH],[('trigger','decoder::maybe_ack')],[('last date','date of the last automatic ack','decoder::m_last_ack_date')],['acks given to the packet handler'])
p('C13','Foreign and truncated packets are rejected without harm',
 'A packet of a type the callee does not handle (acknowledgement for the decoder, source or repair for the encoder, unknown type for both and for dispatching) is refused with the packet-type error, which gives the packet back, and changes nothing. A packet cut anywhere is refused with the overflow error; it delivers nothing, acknowledges nothing and does not affect how later packets are processed (it may only count as a received packet), and dispatching hands each packet to the right peer.',
 ['inputs','fault_sequences'],'All packet types and all proper prefixes of valid packets, in any state of the encoder and decoder.',
 'Tests try a few malformed packets on fresh objects.',
 [PK,E,DH,'netcode/dispatch.hh','netcode/detail/packet_type.hh'],[('bounds checks','packetizer::read'),('type checks','get_packet_type')],(),['exceptions / C error codes','subsequent behaviour'])
p('C14','Packets follow the wire format and are read back as written',
 'Every packet given to the packet handler is framed by exactly one end mark and follows the documented binary layout (big-endian fields, compressed list of identifiers) for every list of identifiers, payload and size. A peer reads from it exactly what was written and reports having consumed exactly the length of the packet, even when other bytes follow.',
 ['inputs','histories'],'All identifier lists (long runs, large gaps, empty), payload sizes up to the limit, all packet types.',
 'Lists of identifiers in tests are short; the compression has boundary cases at 255 and 65535.',
 [PK],[('serialisation','packetizer::write*'),('deserialisation','packetizer::read*')],(),['bytes given to the packet handler','returned number of bytes'])
p('C15','The C interface behaves as the C++ one',
 'For any sequence of operations, encoders and decoders driven through the C functions emit the same packets, deliver the same data, return the same sizes and report the error code that corresponds to the exception of the C++ classes. The data and packet objects handed over can be used again after being resized.',
 ['histories','programs','configurations'],'All sequences of calls available in both interfaces.',
 'C tests are a few straight-line scenarios.',
 ['netcode/c/encoder.cc','netcode/c/decoder.cc','netcode/c/packet.cc','netcode/c/data.cc','netcode/c/detail/check_error.hh'],[('wrappers','netcode/c/*.cc')],(),['C callbacks, return values, error codes'])
p('C16','Statistics are exact',
 'The counters offered by the encoder (window, sources sent, repairs sent, acknowledgements received) and by the decoder (sources and repairs received, acknowledgements sent, data rebuilt, missing data, useless repairs) at all times equal the number of such events since creation, respectively the current number. The counter of failed full decodings increases only when a call leaves data missing although as many repairs as missing data were held.',
 ['histories'],'All histories of calls.',
 'Tests look at counters after a few calls.',
 [E,DH,D],[('counters','encoder/decoder getters')],(),['getters'])
p('C17','The decoder forgets what the encoder abandoned',
 'After receiving a repair whose oldest data is k, the decoder permanently disregards data older than k: sources older than k and repairs that encode any of them have no effect on deliveries, missing data or acknowledgements, and they are not listed by later acknowledgements nor counted as missing. This boundary never moves backwards and never hides data that the encoder still protects.',
 ['schedules','histories'],'All histories including arbitrarily late packets.',
 'Requires late packets from several windows ago.',
 [D],[('horizon','decoder::drop_outdated')],[('horizon','smallest relevant identifier','detail::decoder::m_last_id')],['data handler calls','acks','nb_missing_sources()'])
p('C18','Delivered data are 16-byte aligned',
 'Every pointer handed to the data handler is aligned on 16 bytes, whether the data was received directly or rebuilt, and however the packet that carried it was built or resized.',
 ['inputs','histories'],'All delivery paths and packet constructions.',
 'Alignment is checked for a couple of packets only and can hold by luck of the allocator.',
 ['netcode/packet.hh','netcode/detail/buffer.hh','netcode/detail/symbol_alignment.hh',D],[('aligned allocator and shift','packet')],(),['data handler calls'])
p('C19','Packet and data containers behave as byte sequences',
 'For any sequence of constructions, assignments, resizes, appends, clears, copies and moves, a packet (and the C packet and data objects) holds the byte sequence that a plain sequence of bytes would hold: sizes, element access, iteration and buffer pointers agree, copies are independent, shrinking keeps the prefix and growing with a value appends it. The storage returned is 16-byte aligned for a data, and such that a received payload is.',
 ['histories','inputs'],'All sequences of container operations.',
 'Tests check single operations on small packets.',
 ['netcode/packet.hh','netcode/data.hh','netcode/c/packet.cc','netcode/c/data.cc'],[('shifted buffer','packet')],(),['container accessors'])
p('C20','Recorded packets replay identically',
 'When recording is compiled in, the decoder records every packet it is given, in order; reading the record gives back exactly those packets, and feeding them to a fresh decoder reproduces the same deliveries.',
 ['inputs','histories'],'All sequences of packets (of a size that a datagram may have).',
 'No test compiles the recording mode into a decoder.',
 ['netcode/detail/serialize_packet.hh',DH,'tools/replay.cc'],[('record','serialize_packet::write'),('replay','serialize_packet::read')],(),['dump file','data handler calls of the replaying decoder'])
p('C21','Encoders and decoders are independent of one another',
 'What an encoder or a decoder emits, delivers, returns and reports depends only on the calls made on it and on the packets it is given. Other encoders and decoders of the same program, of the same or of other field sizes, used before, in between, from within its handlers in the middle of a call, or in other threads, created or destroyed meanwhile, change nothing.',
 ['schedules','programs','histories'],'All interleavings of the calls on several encoders and decoders, including interleavings within handlers, and all schedules of threads which each use their own instances.',
 'Each test uses one encoder and one decoder at a time, in a single thread, with handlers that only store what they get.',
 [E,DH,D,'netcode/detail/encoder.cc',PK,'netcode/detail/galois_field.hh'],[('working buffers','members of encoder, decoder and packetizer')],(),['packets and data given to the handlers','returned values','getters'])
p('C22','The lossy proxy relays faithfully and loses as configured',
 'Each non-empty datagram that the lossy proxy receives from one side is either forwarded once to the other side, unchanged and in order of reception (replies go to the last client heard), or dropped; datagrams of any size that UDP allows are relayed whole. Which ones are dropped follows the chosen model, separately for each direction: line by line with a file (a line that does not begin with 0 is a loss, and nothing is lost past its end), in the given percentage with the uniform model, and with the burst model after a forwarded datagram the next one is forwarded in p_good percent of cases and after a dropped one the next is dropped in p_bad percent of cases. The numbers of losses and datagrams it displays are those of each direction.',
 ['inputs','histories','configurations'],'All sequences of datagrams in both directions, all sizes, all loss files and parameters.',
 'No test runs the proxy.',
 ['tools/lossy_proxy.cc','tools/loss/burst.hh','tools/loss/uniform.hh','tools/loss/stream.hh'],[('relay','listen'),('loss models','loss::stream, loss::uniform, loss::burst')],[('counters','losses and totals of each direction','a_to_b_losses, b_to_a_losses, a_to_b_total, b_to_a_total')],['datagrams on both sides','displayed report'])
p('C23','The source forwarder forwards exactly the data of the sources it gets',
 'For each source packet it receives, in order, the forwarder of sources emits one datagram made of exactly the data that this source carries, whatever its size and whatever follows it in the datagram. Repairs, acknowledgements, unknown, empty or truncated packets make it emit nothing, and do not stop it.',
 ['inputs','histories'],'All sequences of packets.',
 'No test runs the forwarder.',
 ['tools/source_forwarder.cc',PK],[('forwarding','main')],(),['datagrams on both sides'])
p('C24','A lack of memory is reported through the C interface, and is not fatal',
 'Whichever allocation of memory fails during a call of the C interface (this one alone, or all the following ones too), the program is not terminated. A function that creates an object returns a null pointer, and nothing leaks; any other function either does exactly what it does when memory is available, or reports ntc_no_memory; ntc_no_memory is reported only if an allocation failed. Then every object can be deleted, which releases all its memory; a data or a packet that could not be resized keeps its content; and an encoder goes on sending: each data is sent whole, with an identifier that no other data ever had, and lost data can be repaired.',
 ['crash_points','histories'],'All allocations of all calls, in all sessions; the handlers do not fail, and a decoder that reported a lack of memory is only deleted.',
 'No test makes an allocation fail.',
 ['netcode/c/detail/check_error.hh','netcode/c/encoder.cc','netcode/c/decoder.cc','netcode/c/data.cc','netcode/c/packet.cc',E,D],[('creation','ntc_new_encoder, ntc_new_decoder, ntc_new_data, ntc_new_packet'),('report','check_error')],(),['returned pointers','ntc_error','packets sent','live memory'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
