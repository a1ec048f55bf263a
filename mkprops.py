#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as the single source of the property texts).
import json,os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
      observe_at=observe or [],hook_needed=hook)))
API='libs/api/include/rtbot/FactoryOp.h'; PR='libs/api/include/rtbot/Program.h'; OP='libs/core/include/rtbot/Operator.h'
STD='libs/std/include/rtbot/std/'; CORE='libs/core/include/rtbot/'
p('C01','A restart from a snapshot is invisible in the outputs',
 'A program rebuilt from a snapshot taken between any two messages emits, for every later message, exactly what the uninterrupted program would have emitted. This holds for every operator type, for operators nested inside a pipeline operator to any depth, and after any number of snapshot/restart cycles.',
 ['programs','inputs','crash_points','histories'],'every program, every input history, every position at which it is snapshotted and restarted, any number of restarts',
 'The tests restore one fixed program once, half-way, and a few single operators; state forgotten by a snapshot shows only for the right operator at the right crash point with the right history.',
 [PR,'libs/api/src/Program.cpp',OP,CORE+'Input.h','libs/api/include/rtbot/Pipeline.h',STD+'ConstantResampler.h',STD+'CosineResampler.h',STD+'HermiteResampler.h',STD+'Count.h',STD+'CumulativeSum.h',STD+'Variable.h',STD+'Function.h','libs/finance/include/rtbot/finance/RelativeStrengthIndex.h'],
 [('per-operator state collection and restoration',OP),('whole-program serialization','libs/api/src/Program.cpp')],
 [('operator buffers and scalars','everything an operator remembers between messages',OP)],['Program.receive / receiveDebug results after restore'])
p('C02','Snapshots are pure, reproducible and stable under restore',
 'Taking a snapshot never changes what the program emits afterwards. Restoring a snapshot and snapshotting again yields the identical bytes, and two programs with the same definition and the same message history yield identical snapshots.',
 ['programs','histories','crash_points'],'every program, every history, snapshots at every position and in any number',
 'Tests compare fields of one restored operator; none takes snapshots at arbitrary positions of a running program nor compares snapshot bytes.',
 ['libs/api/src/Program.cpp',PR,OP,CORE+'Input.h',STD+'ConstantResampler.h'],
 [('serialization that only reads',OP),('ordered containers give a canonical byte order','libs/api/src/Program.cpp')],None,['Program.serialize bytes'])
p('C03','The entry gate admits each port\'s messages in strictly increasing time',
 'On every port, a message is forwarded into the program, unchanged and exactly once, if and only if its timestamp is greater than that of every message forwarded on that port before; everything else is dropped without effect. Ports are independent of each other, and the rule spans restarts from a snapshot.',
 ['schedules','inputs','fault_sequences','crash_points'],'every arrival order including duplicated, delayed, reordered and lost messages on any number of ports, with restarts at any point',
 'Tests feed a few hand-picked out-of-order messages to one operator; they do not sample delivery schedules, interleavings across ports, or restarts.',
 [CORE+'Input.h',PR],[('remembering the last forwarded message per port',CORE+'Input.h')],[('lastSent','last forwarded message per port',CORE+'Input.h')],['emissions of the entry operator'])
p('C04','Batching does not change results',
 'Handing a batch of messages to a program produces, per operator and output port, the same message sequence as handing over the same messages one at a time, port after port in port-name order and in order within each port, and leaves the program in the same state. This holds however the stream is cut into batches and whether it is passed directly or accumulated in the message buffer first.',
 ['schedules','inputs','programs'],'every program, every stream, every way of cutting it into batches (including empty ones and batches with several ports) and every mix of direct and buffered hand-over',
 'Tests use one message per call, or one fixed batch; they never compare different cuts of the same stream.',
 [PR,API],[('message-by-message feeding loop and result merging',PR),('message buffer',API)],None,['receive vs repeated receive; processMessageBuffer'])
p('C05','The output selection shows exactly the selected ports',
 'A normal call returns exactly what the debug call for the same messages would return restricted to the operators and ports named in the program\'s output selection: nothing missing, nothing added, same order; without a selection it returns everything. Which of the two kinds of call is used never changes later results.',
 ['programs','inputs','histories'],'every program and output selection (including ports that do not emit and operators that do not exist), every history mixing both kinds of call',
 'Tests use one or two programs whose selection is a single port.',
 [PR,'libs/api/src/Program.cpp'],[('output filter',PR)],[('outputFilter','selected ports per operator',PR)],['Program.receive vs receiveDebug'])
p('C06','Synchronizing operators align streams for every arrival interleaving',
 'A synchronizing operator emits one aligned set of messages for each timestamp that is present on all its ports, in increasing time order, each message used at most once, and never a set with differing timestamps. Each set is emitted as soon as its last member has arrived, so the emitted sequence does not depend on how arrivals on different ports interleave nor on restarts.',
 ['schedules','inputs','crash_points'],'every number of ports, every strictly increasing stream per port, every interleaving and relative lag between ports, losses on any port, restarts at any point',
 'Tests feed a handful of fixed interleavings, mostly lock-step; backlog on some ports with gaps on others is not reached.',
 [CORE+'Join.h'],[('discarding older heads and emitting when the heads agree',CORE+'Join.h')],[('per-port queues','messages waiting for partners',CORE+'Join.h')],['Join emissions'])
p('C07','Stream arithmetic is exact on aligned values',
 'Addition, subtraction, multiplication, division, logical and/or, stream comparison and linear combination emit for each timestamp common to all inputs the documented function of exactly the values bearing that timestamp, the n-th coefficient applying to the n-th input, with that timestamp. Undefined results (division by zero, comparison not satisfied) emit nothing and still consume the aligned messages.',
 ['inputs','schedules','configurations','crash_points'],'every number of inputs and coefficients, every value, every interleaving, gap pattern and restart',
 'Tests use two or three inputs in lock-step with a few values.',
 [CORE+'BinaryJoin.h',STD+'Linear.h',STD+'Division.h',STD+'And.h',STD+'Or.h',STD+'Minus.h',STD+'Plus.h',STD+'Multiplication.h',STD+'GreaterThanStream.h',STD+'LessThanStream.h'],
 [('alignment inherited from the synchronizer',CORE+'Join.h'),('value combination',CORE+'BinaryJoin.h')],None,['operator emissions'])
p('C08','The demultiplexer routes each message to exactly the ports chosen for its time',
 'A data message with time t is emitted, unchanged and once, on exactly those output ports whose control message for t is 1, and on no port when all are 0, in time order. The routing is the same for every interleaving of data and control arrivals and across restarts; a message is held until every control port has spoken for its time, controls for times without data are discarded, and a missing or non-binary instruction is reported as an error instead of being routed.',
 ['schedules','inputs','crash_points'],'every number of ports, every pattern of instructions, every interleaving of the data stream and the control streams, lost data, restarts',
 'Tests drive one or two ports in a fixed order of data and control.',
 [CORE+'Demultiplexer.h'],[('data/control join',CORE+'Demultiplexer.h')],[('data and control queues','pending data and instructions',CORE+'Demultiplexer.h')],['Demultiplexer emissions'])
p('C09','A variable answers each query with the value in force at its time',
 'A query with time t is answered once, stamped t, with the value of the latest definition whose time is not after t, or with the configured default if t precedes the first definition. The answer is given as soon as a definition at or after t is known, whatever the interleaving of definitions and queries and across restarts; a newer query replaces one still waiting.',
 ['schedules','inputs','crash_points','configurations'],'every definition and query stream with increasing times, every interleaving, every default value, restarts at any point',
 'One fixed sequence of definitions and queries is tested.',
 [STD+'Variable.h','libs/api/src/FactoryOp.cpp'],[('definition queue and pending query',STD+'Variable.h')],[('value/initialized','default and whether a definition applies',STD+'Variable.h')],['Variable emissions'])
p('C10','Windowed and cumulative operators always equal recomputation from history',
 'After any number of messages, gaps and restarts, moving average, standard deviation, finite impulse response, peak detection, difference, relative strength index, auto-regression, cumulative sum and count emit exactly (up to rounding) what direct evaluation of their documented formula on the full message history gives. They emit nothing until their window is full, then exactly once per message (peak detection: once per message whose window has its maximum in the middle), with the documented timestamp.',
 ['inputs','histories','crash_points','configurations'],'every window length and coefficient vector, every history length and value sequence, every restart point',
 'Tests run one window length over one short series; drift, eviction and restart errors depend on history length and position.',
 [OP,STD+'MovingAverage.h',STD+'StandardDeviation.h',STD+'FiniteImpulseResponse.h',STD+'PeakDetector.h',STD+'Difference.h','libs/finance/include/rtbot/finance/RelativeStrengthIndex.h',STD+'AutoRegressive.h',STD+'CumulativeSum.h',STD+'Count.h'],
 [('bounded input buffer with running sum',OP)],[('sum','running sum of the buffer',OP)],['operator emissions'])
p('C11','Resamplers cover the regular grid exactly once, across gaps and restarts',
 'A resampler emits exactly one message for every grid point (first input time plus a multiple of the interval) that its input has passed, in order, never skipping, repeating or emitting early, whatever the input spacing, gap length, time magnitude and restarts. The value is the last value known at the grid point (constant), or the documented cosine or cubic Hermite interpolation of the surrounding inputs.',
 ['inputs','histories','crash_points','configurations'],'every interval, every strictly increasing input time sequence from dense to very sparse and of any magnitude, every restart point',
 'Tests use regular spacing and small times; carry-over errors need irregular spacing, and value errors need realistic time magnitudes.',
 [STD+'ConstantResampler.h',STD+'CosineResampler.h',STD+'HermiteResampler.h'],[('grid position kept between messages',STD+'ConstantResampler.h'),('carry-over of the grid phase',STD+'CosineResampler.h')],[('carryOver/nextEmit','phase of the grid',STD+'HermiteResampler.h')],['resampler emissions'])
p('C12','Every emission reaches every connected operator exactly once, in order',
 'When a call returns, each message emitted by an operator on a port has been delivered exactly once, unmodified and in emission order, to every input and control connected to that port and to nothing else, through any acyclic arrangement of fan-outs, diamonds and chains. The result of every operator is its documented function of what it received, and the debug result lists every emission of every operator, in order, once.',
 ['programs','inputs','histories'],'every acyclic program over the operator library in which each input has one producer, every input history',
 'Tests cover a few fixed graphs; delivery errors depend on graph shape and on operators that emit zero or many messages at once.',
 [OP,PR,'libs/api/src/Program.cpp'],[('deliver-then-execute propagation',OP),('result merging',OP),('connection table','libs/api/src/Program.cpp')],[('outputs','connections per output port',OP)],['receiveDebug results'])
p('C13','A nested pipeline or composite behaves like its contents written out inline',
 'Replacing a part of a program by a pipeline operator (or, in the native API, a composite) with the same contents changes no emission visible at its boundary: same messages, same call, same order. Several pipelines with identical contents in one program, and pipelines within pipelines, keep separate state.',
 ['programs','inputs','histories'],'every nesting of every sub-graph with any number of free inputs and outputs, every input history',
 'Tests use one pipeline with one input at one level.',
 ['libs/api/src/Pipeline.cpp','libs/api/include/rtbot/Pipeline.h',CORE+'Composite.h'],[('free inputs/outputs become numbered ports','libs/api/src/Pipeline.cpp'),('forwarding to the inner entry',CORE+'Composite.h')],[('portsMap/all_op','inner operators and the port naming','libs/api/include/rtbot/Pipeline.h')],['pipeline emissions vs inline emissions'])
p('C14','Programs in one process do not influence each other',
 'The results of a program depend only on its own definition and the messages addressed to it, not on which other programs exist, are created, fed, fail, are snapshotted, restored or deleted in between, even when they have the same definition and operator names.',
 ['schedules','programs','histories'],'every set of programs and every interleaving of operations on them, including failing ones',
 'Tests run one program at a time.',
 [API,'libs/api/src/FactoryOp.cpp',PR],[('programs and buffers keyed by program id',API)],[('programs/messageBuffer','per-id program and pending messages',API)],['per-program results'])
p('C15','Program lifecycle operations take effect completely or not at all',
 'Creating a program either succeeds and makes exactly that definition (or snapshot) live under its id with fresh (or the saved) state, or reports an error and changes nothing: an id in use or a malformed definition (text that does not parse, an unknown operator type, a missing parameter, fewer ports, coefficients or points than the operator needs, a duplicate operator id, a reference to an operator, port or entry that does not exist) is never reported as success. Deleting removes the program together with its pending messages, so a later program under the same id starts clean, and operations on an unknown id have no effect.',
 ['histories','programs','fault_sequences'],'every history of create, restore, feed, delete, re-create over any ids, with valid, malformed and inconsistent definitions',
 'Tests create each id once, from valid definitions, and never delete while messages are pending.',
 [API,'libs/api/src/FactoryOp.cpp','libs/api/src/Program.cpp'],[('registry insert/erase',API),('definition checks','libs/api/src/Program.cpp')],[('programs/messageBuffer','live programs and their pending messages',API)],['createProgram/deleteProgram results and later outputs'])
p('C16','A buffered message is processed exactly once',
 'Messages put into a program\'s buffer have no effect until the buffer is processed, are then fed once each in port-name order and arrival order within a port, and are gone afterwards. If processing fails part-way, later processing never sees the failed batch again, neither the messages before nor those after the failure, and continues normally with new messages.',
 ['histories','fault_sequences','schedules'],'every history of buffering, processing, failing messages (unknown port, inconsistent control) and other operations, over several programs',
 'Tests fill and process a buffer once and never make processing fail.',
 [API],[('buffer handed over and cleared on processing',API)],[('messageBuffer','pending messages per program and port',API)],['processMessageBuffer results'])
p('C17','Recovery by redelivery gives exactly-once results',
 'If a client restarts a program from any earlier snapshot and resends, in order, every message from any point at or before that snapshot onwards, the program goes on exactly as if nothing had happened: every re-emitted result equals the original one, no result is lost, and none is repeated for messages the snapshot already covered.',
 ['crash_points','schedules','histories','fault_sequences'],'every program behind an entry gate, every crash point, every choice of snapshot and every amount of overlap in the redelivery, repeated crashes during recovery',
 'No test restarts from an old snapshot or redelivers.',
 [CORE+'Input.h',PR,'libs/api/src/Program.cpp'],[('entry gate state is part of the snapshot',CORE+'Input.h')],[('lastSent','last forwarded message per port',CORE+'Input.h')],['outputs after recovery vs uninterrupted run'])
p('C18','Outputs are ordered and never from the future',
 'On every output port of every operator the emitted timestamps strictly increase over the life of the program, including across restarts, and no emitted timestamp exceeds the largest timestamp admitted so far, unless an explicit time shift lies upstream. An explicit shift moves every timestamp by exactly the configured amount, or to zero where the result would be negative.',
 ['programs','schedules','inputs','crash_points'],'every acyclic program in which each input has one producer, every delivery schedule with duplicates, reordering and loss, every restart; every shift amount and sign',
 'Tests check individual timestamps of a few series.',
 [CORE+'Input.h',CORE+'Join.h',STD+'TimeShift.h',STD+'ConstantResampler.h',STD+'PeakDetector.h',OP],[('entry gate ordering',CORE+'Input.h'),('order-preserving operators',OP)],None,['receiveDebug results'])
p('C19','Running out of memory never corrupts a program',
 'If memory runs out while a snapshot is taken or while a message is being buffered, the call fails as a whole and the program behaves as if the call had not been made. If it runs out while messages are processed, other programs are unaffected, and restarting from the last snapshot and resending continues exactly as if nothing had happened.',
 ['fault_sequences','programs','histories'],'every allocation of every such call failing, any program, any history',
 'No test makes an allocation fail.',
 [API,PR,OP,'libs/api/src/Program.cpp'],[('snapshot built aside and returned by value','libs/api/src/Program.cpp'),('container insertions with strong guarantee',API)],None,['results of later calls'])
p('C20','An exported operator definition rebuilds an equivalent operator',
 'Exporting the operators of a program as text and building a program from that text and the same connections gives a program with identical behaviour, for every operator type and every valid configuration, and exporting it again gives the same text. Every configuration value stated in a definition takes effect as stated, and omitted ones take their documented default.',
 ['configurations','programs','inputs'],'every operator type, every valid configuration (fractional, negative and large values, every window length), migrated at any point of any history',
 'Tests round-trip one pipeline; configuration errors depend on the value.',
 ['libs/api/src/FactoryOp.cpp','libs/api/src/Program.cpp'],[('operator reading and writing','libs/api/src/FactoryOp.cpp')],None,['FactoryOp::readOp/writeOp, Program.getProgram'])
p('C21','State stays bounded by the program, not by the length of the stream',
 'When all streams meeting in a program carry the same timestamps, the size of the retained state (snapshot size) is bounded by the program\'s windows and does not grow with the number of messages processed, including dropped, filtered and undefined ones.',
 ['histories','programs','inputs'],'every such program and every stream length, with duplicates and late messages in between and restarts',
 'Tests are short and never look at retained state.',
 [OP,CORE+'Join.h',CORE+'Demultiplexer.h',STD+'Variable.h',CORE+'Input.h'],[('eviction of consumed messages',CORE+'Join.h')],[('operator buffers','retained messages',OP)],['Program.serialize size'])
p('C22','The text API agrees with the native engine',
 'For every program and history, the JSON results of the text interface (creation, buffering, batches, deletion, queries) state exactly the messages the native engine produces, with full 64-bit timestamps and exact finite values. Definitions the published schema rejects are refused with a reason and leave every program untouched; those it accepts and whose references resolve are created. A batch whose lists differ in length is refused and leaves nothing waiting. The functions that the modules for Python and JavaScript export are these.',
 ['histories','programs','inputs','configurations'],'every history of text-interface calls over any programs, valid and invalid',
 'Tests check validation of a few operators and one batch.',
 ['libs/api/src/bindings.cpp','libs/api/include/rtbot/bindings.h','libs/std/include/rtbot/std/Function.md'],[('validation before creation','libs/api/src/bindings.cpp'),('result to JSON','libs/api/src/bindings.cpp')],None,['bindings functions'])
RS='apps/rtbot-server/src/'; RM='apps/redis-module/src/'; RR='apps/rtbot-rs/src/'
p('C23','The streaming server delivers every output to exactly its clients',
 'Every message of a server\'s input feed that carries a usable time and value becomes one sample in Redis, in feed order, with the time of the message (the clock of the server where no time is configured) and its first configured value, be it a number or a number written as text; messages that carry none are skipped. Every output published for the program of the server reaches every WebSocket client of that server once, in order, from the moment it is connected until it leaves, and no client of another server, whatever clients connect, stall, send and disconnect, whatever samples Redis refuses, and whatever else appears in the channel or in the feed.',
 ['schedules','fault_sequences','histories'],'every interleaving of the tasks of the server with the arrival of feed frames, Redis replies, publications and client frames; every set of clients that connect, stall, disconnect; refused writes, clock steps, duplicated, out-of-order and malformed feed messages; several servers on one Redis',
 'These applications have no tests, and what goes wrong depends on the order in which tasks run.',
 [RS+'main.rs',RS+'ws_client.rs',RS+'ws_handlers.rs',RS+'pull_redis_service.rs',RS+'push_redis_service.rs'],[('broadcast to the clients that are connected',RS+'main.rs'),('one task and one queue per client',RS+'ws_client.rs'),('feed messages to samples',RS+'main.rs')],None,['commands received by Redis, WebSocket frames received by clients'])
JS='libs/wrappers/javascript/src/'; PY='libs/wrappers/python/rtbot.py'; GEN='tools/generator/'
p('C24','Every client call gets exactly the results of its own messages',
 'However calls of the JavaScript or Python client overlap, each call takes effect once and atomically between its start and its result, calls of one kind on one program in the order they were made, and its result states what the engine answers to that call and to nothing else. A call that fails or names an unknown program reports its own failure and changes no result of any other call. Programs never share an identity unless the user gives them one, so the messages of one never reach another, also when the random number generator is reseeded.',
 ['schedules','histories','fault_sequences'],'every set of programs and overlapping calls (creation, processing, debug processing, batches, deletion), every order in which pending calls resume, a slow or failing engine load, every reseeding of random',
 'The wrapper tests await each call before making the next, with one program; mixing calls up needs two in flight.',
 [JS+'api.ts',JS+'program.ts',PY],[('engine calls serialized behind promises',JS+'api.ts'),('program identity',PY)],None,['promise results of the JavaScript client, return values of the Python client'])
p('C25','The definition a client builds is the one that runs',
 'After any sequence of adding and removing operators, connections and outputs, the JavaScript and the Python client hand the engine exactly the definition so built, and it survives being written as text and read again. The generated operator classes accept every parameter value the published schema allows, refuse the others, apply the documented defaults, and describe exactly the operator asked for.',
 ['histories','programs','configurations'],'every editing history, every operator type with valid, boundary, default and invalid parameter values, every program over them',
 'The wrapper tests build two or three fixed programs and never edit them.',
 [JS+'program.ts',PY,GEN+'src/index.ts',GEN+'templates/typescript.hbs',GEN+'templates/python.hbs'],[('editing of operators and connections',JS+'program.ts'),('operator classes generated from the schema',GEN+'src/index.ts')],None,['definition text handed to the engine'])
p('C26','A run reports everything and leaves nothing behind',
 'Running a program over rows of data with the JavaScript or the Python client returns every result of every row, in row order, in the chosen format. Whether the run succeeds or fails, at whatever point (a refused program, an unusable row, a failing progress callback, an interrupt), the program it created no longer exists in the engine afterwards, a failure reports its reason, and programs of others are unaffected, including the one whose identity made the creation fail.',
 ['histories','inputs','fault_sequences','programs'],'every program, every table of data, every failure point, runs repeated, overlapping and mixed with other use of the engine',
 'The wrapper tests run one valid program to its end; what a failed run leaves behind is never looked at.',
 [JS+'program.ts',PY],[('program created, fed and deleted by the run',JS+'program.ts')],None,['result of run, programs alive in the engine'])
p('C27','The Redis module keeps every output series equal to its program\'s output',
 'Running a program with the Redis module fills the output series with what the program emits over the samples the input series holds, in time order. A persistent pipeline then answers each sample added to the input series (as the latest sample of that series) with the output of the program, added to the output series and published as time and value. Pipelines do not influence each other, also when they share an input, start where another one ends, or when an identifier is drawn twice. A command that fails, or that is not persistent, leaves no pipeline behind, and one that fails for its arguments, program or keys leaves every series as it was. Samples added when no pipeline exists pass unharmed. The registry holds at most one pipeline per pair of keys, and deleting by pair or by input key removes exactly those.',
 ['histories','fault_sequences','programs'],'every sequence of samples (late and repeated ones included), program definitions (broken ones included), run commands, key deletions and refused writes; every sequence of registry calls',
 'The module has no tests.',
 [RM+'commands/rtbot_run.rs',RM+'commands/rtbot_xrun.rs',RM+'program_validator.rs',RR+'pipelines_registry.rs'],[('history replayed into a new pipeline',RM+'commands/rtbot_run.rs'),('reaction to each sample',RM+'commands/rtbot_xrun.rs'),('pipelines by input and output key',RR+'pipelines_registry.rs')],[('PIPELINES_REGISTRY','pipeline identifiers by key pair',RR+'pipelines_registry.rs')],['time series, publications and command replies of Redis; return values of PipelinesRegistry'])
CLI='apps/cli/src/'
p('C28','The debug command reports its whole run and its view shows just that',
 'The debug command of the command line runs the program over exactly those rows of the data file that hold a time and a value (scaled as asked, times rounded to the nearest integer) and writes the complete result of every such row, in row order, to the console or to the file asked for. Where a file cannot be read, program or engine refuse, the run fails or the output cannot be written, it says why, ends with a failure, leaves no program behind and the output file as it was. In the interactive view the position stays within the data and follows every sequence of steps, play, reverse, pause and clicks with at most one clock running; the table shows, from the current row on, exactly the messages that each selected operator emitted on each port in that row, there is one check box per operator, and what is shown is never older than the last change for long.',
 ['inputs','programs','histories','fault_sequences'],'every program, data file, scale and option; every sequence of keys and clicks at any moments relative to the timers; a slow or failing engine load, unreadable, garbled or unwritable files',
 'The command line has no tests.',
 [CLI+'commands/debug.ts',CLI+'tui/index.ts',CLI+'tui/store.ts',CLI+'tui/select-operators-form.ts',CLI+'tui/output-table.ts',JS+'program.ts'],[('rows to messages',CLI+'commands/debug.ts'),('one timer at a time',CLI+'tui/index.ts'),('table computed from the recorded run',CLI+'tui/store.ts')],[('debuggerStore','position, selection and table',CLI+'tui/store.ts')],['console, output file, exit code, widgets of the screen'])
p('C29','No history makes the engine corrupt memory or behave undefinedly',
 'Whatever programs, messages, snapshots, restarts, broken definitions, unknown identifiers and allocation failures the engine meets, in whatever order, it never reads or writes memory outside the objects it owns or after releasing them, and never does what the language leaves undefined (overflow of signed integers, conversion of a number to a type that cannot hold it, use of an element that a container does not have).',
 ['histories','inputs','programs','fault_sequences','crash_points'],'every history of every other property of the engine (C01 to C22), with all their faults',
 'The tests are built without sanitizers, and a stray read or a dangling reference shows in no result until the memory has been used again: for the right queue length, restart or failure.',
 [OP,PR,API,CORE+'Join.h',CORE+'Demultiplexer.h',STD+'Variable.h','libs/api/src/Program.cpp','libs/api/src/FactoryOp.cpp','libs/api/src/Pipeline.cpp'],
 [('buffers and queues of the operators',OP),('snapshot decoded from bytes',PR),('operators and connections referring to each other',OP)],None,['invariants compiled into the engine (AddressSanitizer, UndefinedBehaviorSanitizer, assertions of the standard library)'])
p('C30','Deleting a program releases everything it held',
 'A host that creates, feeds, restarts and deletes programs, again and again, holds after each round no more memory than after the rounds before: what a program, a refused definition, a failed call, a buffered message or a snapshot took is released when the program is deleted or replaced, or at once where nothing was created.',
 ['histories','programs','fault_sequences'],'every history of creating, feeding, buffering, snapshotting, restarting, replacing and deleting programs, with broken definitions, unknown identifiers, failing calls and allocation failures',
 'The tests create each program once and end; what stays behind in a process that goes on is never looked at.',
 [API,PR,OP,'libs/api/src/FactoryOp.cpp','libs/api/src/Pipeline.cpp','libs/api/src/bindings.cpp'],
 [('programs and their message buffers by identifier',API),('operators owned by their program',PR),('inner operators owned by their pipeline or composite',CORE+'Composite.h')],[('programs, messageBuffer','what is alive',API)],['blocks alive in the allocator after all programs are deleted'])
p('C31','Pointwise operators compute their documented value for each message, at once',
 'Identity, Add, Scale, Power, Constant, GreaterThan, LessThan, EqualTo, Function and TimeShift keep no memory of earlier messages: each accepted message is answered at once, in the same call, by exactly one message at the same time (TimeShift: moved by dt times times, never below zero) whose value is the documented function of that message alone, at every point of its domain: adding, scaling, raising to the power, the constant, the linear or cubic Hermite interpolation between the points in order of x, continued outside them. The three filters let a message pass unchanged exactly when its value is strictly greater than, strictly less than, or equal to their value, and emit nothing otherwise. Neither gaps, rejected messages, restarts nor how messages are batched change that.',
 ['inputs','histories','programs','crash_points'],'every value (thresholds, interpolation points and the numbers next to them included), every parameter, every history of late, repeated and lost messages and of restarts',
 'The tests try a handful of round values; a threshold compared with a tolerance, a boundary on the wrong side, a segment or tangent chosen wrongly shows only for particular values.',
 [STD+x+'.h' for x in ('Add','Scale','Power','Constant','Identity','EqualTo','GreaterThan','LessThan','Function','TimeShift')]+[CORE+'FilterByValue.h'],
 [('comparison with the threshold',CORE+'FilterByValue.h'),('segment and tangents of the interpolation',STD+'Function.h'),('shift of the time',STD+'TimeShift.h')],None,['messages emitted by each operator in the result of a debug call'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
