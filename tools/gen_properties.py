#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
PC='modbus_tk/pymodbusclient.py'; M='modbus_tk/modbus.py'; T='modbus_tk/modbus_tcp.py'; R='modbus_tk/modbus_rtu.py'; O='modbus_tk/modbus_rtu_over_tcp.py'
U='modbus_tk/utils.py'; H='modbus_tk/hooks.py'; S='modbus_tk/simulator.py'; C='modbus_tk/simulator_rpc_client.py'

p('C01','Operations on a slave\'s data are atomic and linearizable across threads',
  'For any set of threads reading and writing one slave\'s blocks at the same time, through set_values/get_values or through Modbus requests of any supported function, directly or over any number of servers sharing the databank, every completed operation takes effect entirely at one instant between its call and its return and its result is the one a sequential slave gives at that instant. In particular no read, local or remote, ever sees part of a multi-item write, and no update (including a mask write or a read/write-multiple) is lost. A hook that runs in the middle of a request does not open a window in which another thread sees or makes a half-done change.',
  ['schedules','histories','inputs'], 'every interleaving, at bytecode-line granularity, of up to 4 threads and every mix of the supported operations on a small block',
  'the two multi-threaded tests start two threads that sleep between calls; they see one interleaving per run and only set_values/get_values',
  [M],[('slave data lock held for the whole request, set_values and get_values',M)],
  [('block data','current values of each address range',M)],['master.execute results','Slave.get_values results','Slave.handle_request results'])
p('C02','Results do not depend on how the transport cuts, merges or delays bytes',
  'Over a transport that loses and alters nothing but may split, coalesce and delay bytes (below the configured timeouts), and even if the system clock is set meanwhile, every master request of a function the slaves support (and, against a conformant slave, of every other one the master can send) returns exactly the values, echo or Modbus exception code prescribed by the Modbus specification for the contents of the addressed slave, and afterwards the slave holds exactly the prescribed contents. This is so for Modbus TCP, Modbus RTU (with and without local echo) and RTU over TCP, for signed and unsigned slaves, for any order of requests from one master and any number of masters. Verbose logging, hooks that return nothing and data_format/returns_raw options do not change what is transferred.',
  ['inputs','schedules','histories','configurations'],'every sequence of requests, block layout and segmentation/delay of the byte streams',
  'tests use the loopback interface, which delivers each small frame whole and at once; no RTU or RTU-over-TCP transport test can run',
  [M,T,R,O,U],[('Master.execute encodes and decodes per function code',M),('length-driven receive loop',T),('silence-driven frame reading',R)],
  [],['Master.execute return value or exception','Slave.get_values'])
p('C03','A TCP master never returns the answer to another request',
  'A TCP master returns data only from a complete response frame that carries the transaction id, protocol id and unit id of the request it is executing and a length that matches what was received. Late answers to timed-out requests, duplicated or replayed frames, frames with any one of these header fields wrong, truncated frames and answers split by a reconnect make the call raise; they never produce values that are not the slave\'s answer to that very request. Transaction ids of all masters and threads of the process together do not repeat before the 16-bit counter wraps around, and consecutive ones differ also there.',
  ['fault_sequences','schedules','histories'],'every sequence of delays, duplications, replays, header alterations, truncations and disconnections of responses',
  'unit tests check parse_response on hand-made headers one at a time; no test delays, repeats or replays a response on a live connection',
  [T,M,U],[('header comparison of response with request',T),('flush of stale input before sending',U),('transaction id counter under a lock',T)],
  [('transaction id','process-wide counter giving each request its id',T)],['Master.execute'])
p('C04','Damaged RTU frames never yield data and never change memory',
  'An RTU frame that was altered, cut, lengthened or merged with noise so that its CRC no longer matches, or that carries another slave\'s address, is never accepted: the master raises instead of returning data (over a serial line and over TCP), and the server neither changes any slave nor answers. Bytes that reached the master before it sent its request are never part of the answer. A request that arrives intact after a silence of at least twice the inter-frame timeout is served correctly whatever was on the line before.',
  ['fault_sequences','inputs','schedules'],'every placement of bit flips, lost, inserted and duplicated bytes and noise bursts on the line, in both directions',
  'unit tests corrupt the CRC of single hand-made frames; no test has a serial line',
  [R,O,U],[('CRC and address check of response and request',R),('input buffer reset before sending',R)],
  [],['RtuMaster.execute','RtuOverTcpMaster.execute','Slave.get_values','bytes written by RtuServer'])
p('C05','A faulty TCP client cannot disable the server or disturb other clients',
  'Whatever any set of TCP clients send or do (garbage, invalid lengths, partial requests, stalls, resets and disconnections at any byte, not reading answers, connection attempts that fail while being accepted), the server thread keeps running, keeps accepting connections, and every other client gets the correct answer to each valid request within a bounded time after the faulty clients\' current partial requests have ended or timed out. The faulty traffic changes slave contents only by complete valid requests.',
  ['fault_sequences','inputs','schedules'],'every byte stream and disconnection point of hostile clients combined with every schedule of well-behaved ones',
  'one performance test sends one garbage string (and fails for another reason); nothing resets or stalls connections or makes accept fail',
  [T,M],[('per-socket exception handling closes only that socket',T),('1 s receive timeout per byte',T)],
  [('set of served sockets','listening socket and client sockets polled by the server',T)],['answers of well-behaved clients','Slave.get_values'])
p('C06','A TCP server answers each request once, in order, in well-formed frames',
  'The bytes a TCP server sends on a connection are a sequence of whole Modbus TCP frames with a correct length field: exactly one for each well-framed request (correct length field, PDU not empty) to an existing slave, in the order of the requests, each repeating that request\'s transaction id, protocol id and unit id and carrying its function code (with the top bit set if refused). Broadcasts and requests to unknown units get no bytes at all. This holds for pipelined requests, for requests the server fails to execute (answered with exception code 4 or another exception, not silence or a bare code; a ModbusError raised by a hook with the code it carries), and for clients that accept the answers slowly.',
  ['inputs','schedules','fault_sequences','histories'],'every pipelined sequence of requests, cut anywhere, with slow readers and short writes',
  'functional tests send one request at a time and read one answer; none looks at the raw stream',
  [T,M],[('length-driven request reader',T),('response header cloned from the request',T),('error response built when handling fails',M)],
  [],['bytes sent by the server on each connection'])
p('C07','A request that is refused or not answered changes nothing',
  'A request PDU that gets an exception answer, or no answer because it was invalid, leaves every slave exactly as it was; a request that gets a normal answer has had exactly its specified effect on the addressed items and none on any other item, block or slave. This holds for every byte string, including truncated PDUs, wrong byte counts, out-of-range quantities and addresses, and for errors raised by hooks before the data is written. An answered write is what later reads return until the next write.',
  ['inputs','histories','fault_sequences'],'every request PDU (valid, truncated, mutated) in every history, with failing hooks, over TCP, RTU and direct calls',
  'tests send well-formed PDUs with one parameter out of range and do not look at memory afterwards',
  [M],[('validation before any block item is written',M)],[],['Slave.get_values','response PDU'])
p('C08','Master calls finish in bounded time and the master recovers by itself',
  'Every call to execute returns or raises within a time bounded by the configured timeout and the number of bytes received, whatever the peer does: silence, half an answer, a close or reset at any byte, an unreachable host, a refused connection. The failure releases everything the call held, so other threads and masters can proceed. As soon as the slave is reachable and quiet again, later requests on the same master object succeed without the application reopening it (TCP masters reconnect by themselves, RTU masters go on with their port after transient errors; the first request after a fault may still fail). After close() the next request opens the connection or port again.',
  ['fault_sequences','schedules','crash_points'],'every point at which the connection stalls, closes, resets or is refused, any server restart, for TCP, RTU over TCP and RTU masters',
  'tests never interrupt a connection; the reconnection tests are commented out',
  [T,O,R,M,U],[('socket timeout set before connecting',T),('flush failure triggers reconnect',T),('end of stream ends the receive loop',T),('lock released in finally',U)],
  [],['duration and outcome of Master.execute in simulated time'])
p('C09','Servers can be stopped and restarted at any moment',
  'stop() on a TCP, RTU or composite server returns, without raising, within a bounded time after any traffic in progress ends, at whatever instant it is called after start() has returned, and also when called twice, by two threads, or on a server that never started. After it returns the server handles no further request, holds no socket (its port can be bound again) and has closed its serial port; start() then serves again with all slaves and values kept. A start that fails because the port is in use or the device is missing can be retried successfully later.',
  ['schedules','crash_points','histories','fault_sequences'],'every instant of stop and start relative to the server thread and to client traffic, every number of cycles',
  'tests stop an idle server once, from one thread, and never look for the race between stop and the end of the server thread',
  [M,R,T,S],[('go event and join of the server thread',M),('cancel of the pending blocking read',R),('new thread object made when the old one ends',M)],
  [('server thread and go event','which thread serves and whether it should go on',M)],['Server.stop/start','client outcomes','open sockets'])
p('C10','An RTU server recovers from serial errors, noise and lost lines',
  'After any sequence of read errors, write errors, failed re-opens, disconnected and reconnected devices, noise and half frames on the serial line, an RTU server thread is still running and, once the line works, the port could be reopened and there was a silence of at least twice the inter-frame timeout, answers the next valid request correctly. stop() still returns in bounded time if called during such faults.',
  ['fault_sequences','schedules','crash_points'],'every sequence of serial exceptions and damaged traffic at every read, write, open and close',
  'no test has a serial line; the exception paths are never executed',
  [R],[('close and re-open of the port on read errors',R),('catch-all around one request',R)],
  [],['answers of RtuServer','RtuServer.stop'])
p('C11','A broadcast is applied by every slave once and is never answered',
  'A valid write request (functions 5, 6, 15, 16, 22) broadcast to a server (unit 0) is applied exactly once by every slave that is present throughout and has the addressed items, even if other slaves refuse it, fail on it, or are added and removed at the same time. No broadcast of any kind, valid, malformed, reading or failing, produces an answer. A broadcast read changes nothing.',
  ['schedules','inputs','histories'],'every interleaving of broadcasts with slave registration, data access and other requests, every request PDU',
  'the broadcast tests fail on this interpreter and never add or remove slaves at the same time',
  [M],[('loop over all slaves for unit 0',M)],[('slave map','slaves by id',M)],['Slave.get_values on all slaves','bytes sent by the server'])
p('C12','Block and slave tables stay consistent under concurrent changes',
  'Whatever sequence of add_block, remove_block, remove_all_blocks, add_slave, remove_slave and remove_all_slaves any threads issue while data is being accessed, block names stay unique within a slave, slave ids stay unique within a server, and no two blocks of one type ever share an address. Each such operation either takes effect atomically or raises the documented error without any effect (overlap, duplicate, missing, invalid), exactly when the sequential rule says so. Values written to a block stay reachable, by name and by request, until that block is removed.',
  ['histories','schedules','inputs'],'every order and interleaving of table operations and data accesses',
  'the overlap test uses a single existing block; the threaded test adds disjoint blocks only',
  [M],[('overlap check over the blocks of the type',M),('locks around both tables',M)],[('block tables','blocks by name and by type',M)],['results and exceptions of the table operations','get_values and request results'])
p('C13','Hooks can be installed, removed and called from any thread and may call back',
  'A hook installed before an event starts and not removed until it ends is called exactly once for that event, hooks of one name run in installation order, the first value returned that is not None ends the chain and replaces the message where the documentation of install_hook says so for masters and servers, and a removed hook is not called for later events; a function installed several times is called once per installation. Hooks may read and write the data of the slave they are called for, change the block and slave tables, execute requests with other masters and install or remove hooks, while other threads use the same servers, masters and slaves, without deadlock. An exception raised by a hook called while a server handles traffic never stops that server.',
  ['schedules','histories','fault_sequences'],'every interleaving of hook installation, removal and invocation with data access and traffic',
  'one test counts calls of one hook from one thread',
  [H,M,T,R],[('registry lock',H),('first non-None value wins',H)],[('hook registry','functions by hook name',H)],['hook call log','effects of hook results'])
p('C14','Threads sharing masters each get the answer to their own request',
  'When several threads call execute on the same master (TCP, RTU or RTU over TCP), or on different masters of one process, each call returns the answer to its own request, requests are sent on the wire one whole frame at a time, and on one connection a request is never sent before the previous one has been answered or has failed. A call that failed, and whose late bytes have all arrived or can not arrive any more, does not disturb the following ones, and a call whose arguments no request can carry raises without sending anything. Calls made with the option threadsafe=False on masters which no other thread uses do so too, and wait for no other call.',
  ['schedules','histories','fault_sequences'],'every interleaving of up to 4 threads on shared masters, with failing requests in between',
  'the multi-threaded test for TCP is commented out, the one for RTU needs hardware',
  [U,M,T,R],[('execute runs under a process-wide lock',U)],[],['Master.execute','bytes on the wire'])
p('C15','Simulator console and RPC users each get the answer to their own command',
  'Every command entered on the simulator console or sent over RPC is executed exactly once, one at a time, and the interface that sent it receives the answer to that command and to no other one, whatever the other interface does at the same time. Commands may be of any length, take any time and arrive in pieces without pauses; unknown, malformed and failing commands are answered with an error and leave the simulator running. The effects on slaves and blocks are those of the corresponding API call, and quit ends the simulator and stops its servers.',
  ['schedules','histories','inputs','fault_sequences'],'every interleaving of console and RPC commands, every command text, clients that disconnect early',
  'no test covers the simulator',
  [S,C],[('input and output queues between interfaces and the command loop',S)],[('command and answer queues','commands waiting and answers waiting',S)],['answers seen by each interface','Slave.get_values'])
p('C16','A worker thread runs init once, then main, then exit exactly once',
  'A started WorkerThread calls the init function once, then the main function repeatedly until stop is called or a function raises, then the exit function exactly once, never two of them at the same time and all in its own thread. When stop() returns, no call is in progress or will follow and the exit function has finished, whatever moment stop was called and from whichever other thread; stop() before start does nothing.',
  ['schedules','fault_sequences','crash_points'],'every instant of stop relative to the worker, exceptions in init, main or exit',
  'no test covers WorkerThread',
  [U],[('go event, try/finally around the loop, join in stop',U)],[],['call log of the functions'])
p('C17','No connection outlives its use on either side',
  'A TCP server closes its side of a connection within bounded time after the client closed or reset it or an error occurred on it (a request left incomplete counts as one), and closes all of them when it stops; it never closes a connection whose client is behaving. A TCP master holds at most one open connection at any time, also across reconnects, keeps it for as long as its requests are answered, and holds none after close() (open and close not being called during an execute). Every accepted connection is reported exactly once to the on_connect hook and a client\'s orderly disconnection exactly once to the on_disconnect hook.',
  ['fault_sequences','histories','schedules','crash_points'],'every sequence of connections, disconnections at any byte, resets, server stops and reconnects',
  'the test that checks cleaned connections is commented out; nothing counts sockets',
  [T],[('zero-byte peek detects disconnection',T),('close and remove on error',T),('old socket closed before reconnecting',T)],
  [('served sockets','sockets held by the server',T)],['open sockets in the simulated network','hook calls'])
p('C18','An RTU server speaks on the line only to answer a frame addressed to it',
  'On a serial line shared by several devices, an RTU server writes exactly one whole frame with a valid CRC for each valid request addressed to one of its slaves, starting with that slave\'s address, and writes nothing otherwise: not for broadcasts, not for other devices\' requests or answers, not for damaged frames or noise. It does not send an answer while another request is already arriving.',
  ['schedules','inputs','fault_sequences','configurations'],'every sequence of frames for present and absent slaves, broadcasts, other devices\' answers and noise, at every baud rate and scheduling delay',
  'no test has a serial line',
  [R,M],[('slave lookup gives no response for unknown ids',M),('pending-input check before writing',R)],[],['bytes written by RtuServer on the simulated line'])
p('C19','CRC-16 and byte swap are correct for every byte string',
  'calculate_crc returns the Modbus CRC-16 (polynomial 0xA001, initial 0xFFFF) of every byte string in wire order.',
  ['inputs'],'every byte string','tests sample some strings',[U],[('table-driven CRC',U)])
p('C20','RTU timing constants follow the baud rate',
  'For every baud rate the inter-character time is that of one 11-bit character up to 19200 baud and 0.5 ms above.',
  ['inputs'],'every baud rate','the test samples 30 rates',[U],[('calculate_rtu_inter_char',U)])
p('C21','The web HMI keeps its master and request tables',
  'Masters and requests added or deleted through the web interface survive a restart of the HMI.',
  ['histories','crash_points'],'every history of additions and deletions','no test covers the HMI',['hmi/master_webhmi.py'],[('sqlite persistence','hmi/master_webhmi.py')])
p('C22','The pymodbus drop-in client transfers exactly the values of the slave',
  'Each read method of PyModbusClientTCP returns a sequence of exactly the current values of the addressed coils, discrete inputs or input registers of unit 1, and each write method stores exactly the given value, however the network cuts and delays bytes and whatever other clients and threads do at the same time; refused requests raise. is_open tells whether open() or a call opened the connection and close() did not close it since, no connection is left after close(), and the client can be used again after close() or a reset of the connection.',
  ['inputs','schedules','histories','fault_sequences'],'every interleaving of calls from several clients and threads, every segmentation, resets between calls',
  'no test covers this client',
  [PC,T,M],[('read methods return the values of TcpMaster.execute',PC)],[],['results of the client methods','Slave.get_values','open connections'])
p('C23','Logging never changes or stops the traffic',
  'Whatever logger of create_logger is used and at whatever verbosity, and whether its destination works, blocks for a moment or fails (console closed or full, datagrams refused, text that can not be encoded there), or a record can not be formatted, masters and servers give the same answers, servers keep running and stop() returns. Every other record, with every byte of the frames a verbose master or server logs, reaches a working destination once and whole, by UDP as one datagram ended by CR LF.',
  ['fault_sequences','schedules','inputs'],'every sequence of failures of the log destination, every message text, verbose or not, several threads logging at once',
  'tests create a logger and never make it fail',
  [U,M,T,R],[('emit of the log handlers',U),('verbose logging of requests and answers',M)],[],['results of Master.execute','log output','servers still running'])
p('C24','Slaves given one memory map serve the same data, others share nothing',
  'Slaves created with the same memory map (the memory argument of add_slave), under any ids, in one databank or several, serve one and the same data: a value written through one of them, by a request, a broadcast or set_values, is what each of them returns from then on; a block added through one is served by all and can not overlap a block added through another; blocks removed through one are served by none; blocks which are in the map beforehand are served too; block types to which the map gives the same list share their blocks, always; and a slave which is removed leaves the map to the others. Slaves with different maps, or created without one, share nothing. While several threads read and write different slaves of one map, each single coil and register stays linearizable.',
  ['histories','schedules','inputs'],'every order of table operations, requests, broadcasts and data accesses through slaves which share maps, and every interleaving of reads and writes',
  'no test gives a memory map to a slave',
  [M],[('memory argument of Slave',M),('overlap check over the blocks of the memory',M)],[('memory map','blocks by type, shared by slaves',M)],['Slave.handle_request results','TcpServer answers','Slave.get_values'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P))
