#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,syms=None,notes=None):
    a={"files":files}
    a["mechanism"]=[{"name":s,"where":", ".join(files)} for s in (syms or [])]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","A reply completes only the request that is outstanding under its invoke ID",
 "A reply is handed to at most one request: the one outstanding under the reply's invoke ID when the reply arrives. No request ever completes with data or an error that belongs to another request, however many requests are in flight and however their replies are reordered, delayed, duplicated or interleaved with new requests.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of concurrent confirmed requests, replies (reordered, delayed, duplicated, stale) and invoke-ID reuse",
 "Existing tests exchange one value on one or two fixed ids, in one order; no test has concurrent requests whose replies are permuted or stale.",
 ["tsm/transactions.go","device.go","readprop.go","readmulti.go","writeprop.go","writemulti.go"],["TSM","client.handleMsg"])
p("C02","Invoke IDs are unique while in use, bounded, waited for and recycled last",
 "Requests outstanding at the same time carry distinct invoke IDs between 1 and 254, and at most 20 are outstanding per client. A request that finds the client full waits for a slot (1 s for read-property, write-property and write-multiple, 10 s for read-multiple), uses a slot freed in that time, and otherwise fails without transmitting anything. A released ID is used again only after every other free ID has been.",
 ["schedules","histories"],
 "every history of acquire/release by any number of concurrent callers, including full tables and waiting callers",
 "The tests acquire and release a handful of ids sequentially and never fill the table, wait for a slot or wrap the id space.",
 ["tsm/transactions.go","readprop.go","readmulti.go","writeprop.go","writemulti.go"],["TSM.ID","TSM.Put"])
p("C03","Every confirmed request terminates and gives its slot back",
 "Every confirmed request returns in bounded time whatever the network does (acknowledgement, error, reject, abort, garbage, silence or a failing link) and on return releases its invoke ID and slot. After any history of requests and outcomes, an idle client still supports its full number of concurrent requests and its full range of IDs.",
 ["histories","fault_sequences","schedules"],
 "every sequence of requests of the four kinds with every combination of outcomes, including encode errors and link failures",
 "A leak shows only after more requests than there are slots (20) or ids (254), on outcomes (garbage, abort, send failure) that no test produces.",
 ["tsm/transactions.go","readprop.go","readmulti.go","writeprop.go","writemulti.go"],["client.ReadProperty","client.WriteProperty"])
p("C04","Unanswered requests follow the fixed retransmission and timeout schedule",
 "A request that gets no reply is transmitted once (read-property) or twice (read-multiple, write-property, write-multiple), each attempt waits 5 seconds, every transmission is byte-for-byte identical, and the request then returns an error. No request is ever transmitted more often than that, never again after an accepted acknowledgement, and a single read never again after any reply. (A write or a multiple read may use its second attempt after an error or an unusable reply.)",
 ["fault_sequences","histories"],
 "every pattern of lost requests, lost replies, delayed replies and link send failures",
 "No test drives a client against a lossy network or measures time.",
 ["const.go","readprop.go","readmulti.go","writeprop.go","writemulti.go"],["retryCount","maxReattempt"])
p("C05","Success is reported only for a matching acknowledgement; errors reach the caller",
 "A write reports success only if the device acknowledged that write, and a read succeeds only with the data carried by a read acknowledgement of the same service. When the device answers with an Error PDU the caller gets an error naming the reported class and code. Nothing else received under the same invoke ID (confirmed requests from peers, network-layer messages, acknowledgements of another service, rejects, aborts, undecodable data) is ever reported as success. (Whether the object and property in an acknowledgement are those that were asked for is not claimed.)",
 ["inputs","fault_sequences"],
 "every PDU type, service choice, error class/code and payload that can arrive under an outstanding invoke ID",
 "The client-level paths have no runnable tests; error decoding is tested on one frame.",
 ["device.go","encoding/apdu.go","readprop.go","readmulti.go","writeprop.go","writemulti.go"],["client.handleMsg","Decoder.APDU"])
p("C06","Late, duplicate and unsolicited replies are harmless",
 "A reply that is late, duplicated, or matches no outstanding request is dropped: it never crashes the process, never blocks other traffic, leaves no goroutine or transaction behind, and never changes the outcome of any request it does not belong to.",
 ["schedules","fault_sequences"],
 "every placement of extra copies of replies before, during and after completion, timeout and retransmission",
 "Needs a duplicate or stale reply racing with request completion; the tests never send a reply nobody waits for while closing a transaction.",
 ["tsm/transactions.go","device.go"],["TSM.Send","TSM.Put"])
p("C07","A subscriber receives exactly the in-range messages published while it listens",
 "A subscription to an ID range returns every message published during its lifetime for an ID in the range (both ends included), each exactly once and in publication order, and nothing else. Subscriptions do not affect each other: overlapping, concurrent, finished or slow subscribers never steal, drop or duplicate another's messages.",
 ["schedules","histories","inputs"],
 "every set of concurrent subscribers with overlapping ranges and every sequence of publications, including bursts and publications around a subscriber's start and end",
 "The one test logs what was received and asserts nothing.",
 ["utsm/utsm.go","utsm/subscriber.go"],["Manager.Publish","Manager.Subscribe"])
p("C08","Subscriptions and publishers always terminate on schedule",
 "A subscription ends when nothing in its range has been published for the quiet period, or at the overall timeout, whichever comes first, and every in-range publication restarts the quiet period. Publishing never blocks indefinitely, whatever the number, speed and timing of publishers and subscribers, and nothing is left behind once both are done.",
 ["schedules","histories","configurations"],
 "every configuration of the two timeouts and every timing of publications, including bursts faster than the subscriber and publications racing its end",
 "The test uses one timing and cannot observe a deadlock between a blocked publisher and an expiring subscriber.",
 ["utsm/utsm.go","utsm/subscriber.go"],["Subscribe","Publish","removeSubscriber"])
p("C09","Who-Is returns exactly the responding devices in range, correctly described",
 "Who-Is broadcasts one request whose limits never exclude a device in the requested range, and returns one entry per device instance within the range whose I-Am arrived while it was collecting (first announcement wins), and no others. Each entry carries the instance, max APDU, segmentation, vendor, IP, port, network number and MAC that were announced. Collection ends 2 s after the last response and at the latest after 10 s. A request that cannot be sent is reported as an error.",
 ["inputs","histories","schedules"],
 "every requested range, every set/order/timing of I-Am messages (duplicates, out of range, routed, forwarded, malformed), concurrent discoveries",
 "TestWhoIs needs a live BACnet network and asserts nothing.",
 ["whois.go","device.go","encoding/iam.go","encoding/whois.go"],["client.WhoIs"])
p("C10","Router and network-number discovery return exactly what was announced",
 "Who-Is-Router-To-Network returns exactly the network numbers contained in the I-Am-Router messages that arrive while it collects, for any number of networks per message and any number of routers, a network repeated within a message counting once. What-Is-Network-Number returns exactly the network numbers announced by Network-Number-Is messages. Both are broadcast as network-layer requests.",
 ["inputs","histories"],
 "every list length (0..many) and every combination and timing of announcements, mixed with device announcements",
 "No test covers network-layer messages at all.",
 ["whoisrouter.go","whatnetwork.go","encoding/npdu.go","device.go"],["client.WhoIsRouterToNetwork","client.WhatIsNetworkNumber","Decoder.NPDU"])
p("C11","Application values survive encoding and decoding unchanged",
 "Every supported application value (null, boolean, 32-bit unsigned and signed integers, float, double, character string of any length, enumerated, object identifier) is encoded in the standard's form with the minimal tag and length, and decodes back to the same value, consuming exactly the bytes that encode it. A value of an unsupported type is refused with an error instead of being written.",
 ["inputs"],
 "every value of each supported type: all length classes and boundary values",
 "The tests sample a few values; sign handling, 8-byte doubles and multi-byte length boundaries are not among them.",
 ["encoding/appdata.go","encoding/encoder.go","encoding/decoder.go","encoding/string.go"],["Encoder.AppData","Decoder.AppData"])
p("C12","Requests and acks are encoded exactly as the BACnet standard prescribes",
 "For every valid argument, the encodings of read-property, read-property-multiple, write-property, write-property-multiple, Who-Is, I-Am and the two read acknowledgements are byte-for-byte what ASHRAE 135 prescribes: PDU header, service choice, tag numbers, opening and closing tags, optional array index present exactly when an index is requested, optional write priority present exactly when given. In write-property requests, the present value of a binary output or binary value is sent as enumerated.",
 ["inputs"],
 "every object id, property id, array index, priority, value type and number of objects and properties",
 "Tests round-trip through the library's own decoder on a few samples, so a consistent or one-sided mistake passes; priorities and acks with data are not tested.",
 ["encoding/readprop.go","encoding/writeprop.go","encoding/readmultiple.go","encoding/readmultipleack.go","encoding/writemultiple.go","encoding/encoder.go","encoding/whois.go","encoding/iam.go"],["Encoder"])
p("C13","Link, network and APDU headers round-trip",
 "Every valid BVLC and NPDU header, and every APDU header of confirmed and unconfirmed requests and complex acknowledgements, encodes to the standard's bytes and decodes to the same fields (those of simple acknowledgements and errors, which the library only reads, decode to what they say), for every combination of destination and source network addresses (any address length), priority, expecting-reply, hop count, network message type with vendor ID, PDU type, segmentation flags, invoke ID and service. Decoding consumes exactly the header and leaves the rest untouched.",
 ["inputs"],
 "every combination of header fields",
 "Tests cover four NPDU and three APDU samples; vendor messages, source addresses and multi-byte MACs are not among them.",
 ["encoding/npdu.go","encoding/bvlc.go","encoding/apdu.go","encoding/general.go"],["Encoder.NPDU","Decoder.NPDU","Decoder.APDU"])
p("C14","Every standard application encoding decodes to the value it denotes",
 "Any well-formed application-tagged value a device may send decodes to the value it denotes and consumes exactly its own bytes: unsigned, signed and enumerated values in 1 to 4 octets, reals, doubles, octet strings, UTF-8 and UCS-2 strings, bit strings with unused bits, dates (including unspecified fields), times, object identifiers, nulls and booleans, with short or extended length forms.",
 ["inputs"],
 "every value and every legal (also non-minimal) encoding of each application type",
 "Only values produced by the library's own encoder, which never emits bit strings, dates, times, octet strings, UCS-2 or non-minimal integers, are tested.",
 ["encoding/decoder.go","encoding/appdata.go","encoding/date.go","encoding/string.go"],["Decoder.AppData"])
p("C15","No received bytes can crash, hang or exhaust the client",
 "For every byte sequence of datagram size, decoding terminates promptly with a value or an error, does not panic, and uses memory proportional to the input. A client that receives arbitrary datagrams keeps running and afterwards still completes valid requests.",
 ["inputs","fault_sequences"],
 "every byte string handed to the decoders or arriving from the network: truncations, corruptions, length bombs, unbalanced tags",
 "Tests feed well-formed or one too-short message; each malformed shape fails in its own place.",
 ["encoding","device.go"],["Decoder","client.handleMsg"])
p("C16","Read acknowledgements decode to exactly the objects, properties and values sent",
 "Decoding a well-formed read-property acknowledgement of primitive values, or any well-formed read-property-multiple acknowledgement, yields exactly the objects, properties, array indexes and values it contains, in order, with nothing missing, duplicated or moved to another object: for any number of objects, properties and values per property, for empty lists, and for date-time stamps. A value list of length one is returned as the bare value, and properties whose constructed contents cannot be represented never disturb the others.",
 ["inputs"],
 "every combination of objects x properties x array index x value lists, including constructed (nested tag) values",
 "Three captured packets are tested, mostly for not failing.",
 ["encoding/readmultipleack.go","encoding/readprop.go"],["Decoder.ReadMultiplePropertyAck","Decoder.ReadProperty"])
p("C17","Scanning a device returns its complete object list with names and descriptions",
 "Scanning a device returns exactly the objects in its object list, for any list length and any max-APDU of at least 50, and gives every standard object (types 0 to 127) the name and description that the device reported for that very object. If any part of the answer is missing or of the wrong type, the scan returns an error; it never returns a silently incomplete or mismatched result.",
 ["inputs","configurations","fault_sequences"],
 "every object-list length relative to the scan chunk, every max APDU, every mix of standard and proprietary object types, every short or failing answer",
 "The scan needs a device; the only test does a live scan on a developer's network.",
 ["objectlist.go"],["client.Objects","client.objectList","client.objectInformation"])
p("C18","No multiple-property request larger than the device's max APDU is sent",
 "A read-property-multiple or write-property-multiple request whose size (counted with its network header) would exceed the target's maximum APDU size, or a read-multiple to a device whose size is unknown (0), is refused with an error and nothing is transmitted. Requests that fit are sent unchanged in one datagram, and scanning a device never needs a request larger than its maximum APDU.",
 ["inputs","configurations"],
 "every max APDU size and every request size around it",
 "No test sets a max APDU on a client operation.",
 ["readmulti.go","writemulti.go","objectlist.go","btypes/device.go"],["Device.CheckADPU"])
p("C19","Requests are addressed to exactly the intended device",
 "Every frame goes to the IP and port of the target (the broadcast address for discovery); its network header names the target's network number and its full MAC of any length when the target is behind a router, and no destination when it is not. Requests to one device use the unicast link function and expect a reply; discovery and network-wide messages use the broadcast function and do not.",
 ["inputs","configurations"],
 "every target address: direct, routed with any MAC length, remote and global broadcast, every operation",
 "Addressing is only observable on the wire; no test inspects an outgoing client frame.",
 ["device.go","btypes/address.go","encoding/npdu.go","writemulti.go","iam.go","whois.go"],["client.Send","Address.SetLength"])
p("C20","Invalid requests are refused before anything is sent",
 "A request that cannot be expressed in the protocol (no property, an object type above 1023, an object instance above 4194303, a property id above 4194303, a value of unsupported type, a wrong value type for a binary point, an object identifier that does not fit, also as a value or in an I-Am, a priority outside 1..16 on release) is refused with an error. Nothing is transmitted for it, the caller never panics, and the client remains fully usable.",
 ["inputs"],
 "every invalid field in every request type, at and beyond each limit",
 "Tests cover no rejected request at client level.",
 ["encoding/readprop.go","encoding/validate.go","encoding/encoder.go","encoding/appdata.go","writeprop.go","readprop.go","network/points.go","network/write.go"],["isValidObjectType"])
p("C21","Only genuine BACnet/IP traffic takes effect, credited to its true originator",
 "Only BACnet/IP frames (type 0x81) with a unicast, broadcast or forwarded function take effect; other link functions and types, network-layer messages, unconfirmed services other than I-Am, and inbound confirmed requests never complete a request or add a discovered device. A forwarded frame acts exactly like a direct one from the originating address carried in it, not from the forwarder.",
 ["inputs","histories"],
 "every link type and function, every PDU type, with and without network source/destination headers, truncated forms included",
 "No test feeds frames to the client.",
 ["device.go","encoding/bvlc.go","encoding/npdu.go"],["client.handleMsg"])
p("C22","Addresses map one-to-one between IP, port and BACnet form",
 "Converting an IPv4 address and port to a BACnet address and back is the identity, for every address and port. A data link opened on an address with a subnet reports that address with its own port as local address, and the subnet's directed broadcast address on the standard port as broadcast address; datagrams sent to an address reach exactly it, and received ones report exactly their sender and content.",
 ["inputs","configurations"],
 "every address, prefix length and port",
 "One test checks a single hard-coded interface; it needs that interface to exist.",
 ["datalink/udp.go","btypes/address.go","btypes/device.go","helpers/ipbytes/ip.go"],["IPPortToAddress","UDPToAddress","Address.UDPAddr"])
p("C23","A client uses the link it was given and releases it when closed",
 "A client sends and receives only through the data link it was configured with (the supplied link, or a UDP link on the requested address and port), reports an error when that link cannot be opened, and closing it in any way stops its receive loop and releases the port so that it can be opened again.",
 ["configurations","histories"],
 "every way of configuring and closing a client, any number of open/close cycles",
 "No test opens a client twice or supplies a link.",
 ["device.go","datalink/udp.go","network/base.go"],["NewClient","ClientClose","Close","ClientRun"])
p("C24","Point reads, writes and priorities act on exactly the intended slot",
 "Writing a point changes the device's value in exactly the requested priority slot (16 when none is given) and releasing clears exactly that slot. Reading returns the device's present value, and reading the priority array returns each of the 16 slots at its own position, for analogue, binary and multi-state points, with the highest-priority value reported as such.",
 ["histories","inputs"],
 "every history of writes, releases and reads over the 16 priorities and the object types",
 "These functions have only live-network tests without assertions.",
 ["network/points.go","network/write.go","network/read.go","btypes/priority/priority.go","encoding/writeprop.go"],["Device.PointReadPriority","priority.BuildFloat32"])
p("C25","A device's object list is complete, read whole or element by element",
 "Reading a device's object list returns exactly its objects in order, whatever its length (including zero and one), whether the device can send the list whole or only element by element. A failed element read makes the call return an error rather than a partial list or a crash. (Of a list that the device sends whole, what the device leaves out is missing.)",
 ["inputs","fault_sequences"],
 "every list length, both ways of reading, a failure at every element",
 "Only a live-network test without assertions exists.",
 ["network/objects.go","network/discover.go","network/device.go","helpers/data/data.go"],["Device.DeviceObjects","Device.GetDevicePoints"])
p("C26","Network discovery describes each device with its own data",
 "Discovering devices returns one entry per discovered device with that device's own address, instance, max APDU, segmentation, name and vendor, read from that very device. A device that fails to answer the detail reads keeps its announced max APDU and segmentation and does not disturb the others.",
 ["inputs","fault_sequences"],
 "every set of devices, and every subset of them failing to answer detail reads",
 "Only live-network tests without assertions exist.",
 ["network/discover.go","network/whois.go"],["Device.DeviceDiscover","Network.NetworkDiscover"])
p("C27","The store returns what was last stored under an id, or an error",
 "Looking up a network or device by id returns the instance most recently stored under that id, fully usable, and an error for an id that was never stored or that holds the other kind. Storing under one id never changes another.",
 ["histories"],
 "every history of create, update and lookup over networks and devices",
 "There is no test of the store.",
 ["network/store.go","network/base.go","network/device.go","helpers/store/store.go"],["Store"])
p("C28","Object maps survive JSON round trips",
 "Serialising a map of objects to JSON and reading it back yields the same map, for every object type (named or not), instance and content, without merging, dropping or retyping entries.",
 ["inputs"],
 "every object map, including unknown and proprietary object types",
 "One map with two known types is tested.",
 ["btypes/object_map.go","btypes/object.go"],["ObjectMap"])
p("C29","Bit strings report exactly the bits that were set or received",
 "After any sequence of bit operations within the buffer's capacity, a bit string reports exactly the bits last written, its used length is the highest bit written plus one, and out-of-range positions read as false and change nothing. A bit string received from a device has exactly the bits and the length that were sent.",
 ["histories","inputs"],
 "every buffer size, every sequence of set/get operations, every received bit string up to 15 bytes",
 "One bit string is decoded in the tests, through one packet.",
 ["btypes/bitstring.go","encoding/decoder.go"],["BitString"])
p("C30","Point details carry the object's own name, units and type",
 "The details of a point, and every entry of a device's list of points, carry the object's own identifier, type name, object name, and unit number with the standard's name of that unit. Whatever the device does not have, fails to answer or answers with another kind of value stays empty: it is never filled from another object or another read. The list of points has one entry per object of the device other than device objects, in the device's order.",
 ["inputs","fault_sequences"],
 "every object type, unit number and name, every subset of properties missing or failing, several devices",
 "Only live-network tests without assertions exist.",
 ["network/points.go","network/discover.go","btypes/units/unit_string.go","btypes/object.go"],["Device.PointDetails","Device.GetDevicePoints"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
