prop('T01', 'Simulated time advances by exact steps and ends where configured',
     'In free-running mode every update advances the elapsed simulated time by exactly one configured step, and the Julian date, calendar date and time of day, decimal year, sidereal angle and ephemeris time reported to every model all equal the configured start plus that elapsed time. The run is reported finished at the first step whose elapsed time exceeds the configured duration and at no earlier or later step. The behaviour of the host clock has no influence on any of this.',
     ['configurations', 'schedules'], 'every start date, step size, duration and number of steps, including month, year and leap-day rollovers, under any host clock',
     'No test constructs the simulation clock (its source is not even compiled in the test build); calendar rollover and accumulated stepping need long histories over many start dates.',
     ['src/environment/global/simulation_time.cpp', 'src/environment/global/simulation_time.hpp', 'src/math_physics/time_system/'],
     [('time update', 'SimulationTime::UpdateTime'), ('start date and calendar conversion', 'SimulationTime::SimulationTime, ConvJDtoCalendarDay')],
     ['SimulationTime getters', 'time columns of the log'], technique='seeded clock histories against an integer calendar model', note='')

prop('T02', 'Every subsystem updates at its own configured period',
     'Attitude, orbit, thermal, component and log updates are each triggered once per their own configured period (rounded up to whole simulation steps), with constant spacing for the whole run, the first one no later than one period after the start and the first log row at the initial time. Changing the period of one subsystem never changes when another is triggered, and the logged sample times are exactly the triggered ones.',
     ['configurations', 'schedules'], 'every combination of step and update periods and every run length, with and without real-time pacing faults',
     'There is no test of the clock or of the main loop; the cadence is a property of whole histories of interacting counters.',
     ['src/environment/global/simulation_time.cpp', 'src/simulation/case/simulation_case.cpp', 'src/dynamics/dynamics.cpp', 'src/environment/global/clock_generator.cpp'],
     [('per-subsystem counters', 'SimulationTime::UpdateTime'), ('main loop', 'SimulationCase::Main')],
     ['update flags', 'log rows'], technique='seeded period configurations, whole-history cadence check')

prop('T03', 'Real-time pacing tolerates slow hosts, stalls and clock adjustments',
     'With a positive speed setting the simulated time follows the elapsed host time multiplied by the speed, within a few steps, for as long as the host keeps up. If the host falls behind for less than a second no simulated step is skipped and the backlog is worked off without waiting; after a longer stall the simulated time is brought back to host time. Simulated time never runs backwards, and setting the host calendar clock forwards or backwards neither freezes the run nor makes it skip.',
     ['schedules', 'fault_sequences', 'configurations'], 'every sequence of step execution times, oversleeps, stalls, interrupted sleeps and wall clock adjustments',
     'It depends on the host clock and on sleeping, which unit tests neither control nor observe; the file is not in the test build.',
     ['src/environment/global/simulation_time.cpp'],
     [('pacing and catch-up', 'SimulationTime::UpdateTime'), ('clock origin', 'SimulationTime::ResetClock')],
     ['elapsed time against the simulated host clock'], technique='simulated host clock with seeded stalls, oversleeps and clock jumps')

prop('S01', 'Components run exactly when clock, prescaler and power allow',
     'At every component tick each living component that is due by its prescaler runs exactly once: its main routine when its power supply is on and its power-off routine when the supply is off; a component that is not due does neither, and the same holds for the fast tick and its own prescaler. Components run in the order in which they were connected to the clock, also while components are created, copied and destroyed between ticks, and a destroyed component is never called again. Tick counts start at zero and every tick delivers a count one higher than the previous tick.',
     ['schedules', 'fault_sequences', 'histories'], 'every interleaving of ticks, component creation, copying and destruction, voltage changes and prescaler settings',
     'The only tests in the repository are of the mathematics library; scheduling is a property of interleavings of ticks, power faults and object lifetimes.',
     ['src/components/base/component.cpp', 'src/environment/global/clock_generator.cpp', 'src/components/ports/power_port.cpp'],
     [('tick and power gate', 'Component::Tick, Component::FastTick'), ('tick distribution', 'ClockGenerator::TickToComponents'), ('power state', 'PowerPort::Update')],
     ['calls of main, fast and power-off routines'], technique='seeded tick/power/lifetime schedules against a reference scheduler')

prop('D01', 'A configuration and seed determine the run bit for bit',
     'Two runs of the same configuration with the same random seed produce identical trajectories, component outputs and logs, whatever the host does in the meantime: wall clock readings, memory contents left by earlier allocations, entropy of the operating system and earlier disk contents must not influence any result. Changing only the seed changes the noise but not the noise-free truth.',
     ['configurations', 'schedules', 'inputs'], 'every configuration of environment, dynamics and components, every seed, every host state',
     'A test compares one run with a fixed expectation in one process; dependence on uninitialised memory, entropy or wall time shows only when the same run is repeated under different host conditions.',
     ['src/simulation/', 'src/components/', 'src/math_physics/randomization/', 'src/environment/'],
     [('seed distribution', 'GlobalRandomization::SetSeed, MakeSeed'), ('noise generators', 'NormalRand, RandomWalk')],
     ['log file', 'component getters'], technique='same seed replayed under different simulated hosts (clock, entropy, heap garbage), bit comparison')

prop('D02', 'Monte-Carlo cases are replayable and independent of each other',
     'A Monte-Carlo campaign executes exactly the configured number of cases, or exactly one when disabled, and with a deterministic seed the drawn initial values of every case are the same in every repetition of the campaign. Every drawn value obeys its configured distribution (inside the bounds, or mean plus deviation), unit quaternions stay unit, and parameters that are not randomised keep their configured value. What happens inside a case, started with a given noise seed, depends only on that case: running, skipping, aborting or repeating other cases in the same process does not change it.',
     ['histories', 'configurations', 'fault_sequences'], 'every campaign configuration, seed, and history of completed and aborted cases in one process',
     'No test runs a campaign; leakage of state between cases needs two cases in one process and a comparison with a fresh one.',
     ['src/simulation/monte_carlo_simulation/', 'src/dynamics/attitude/initialize_attitude.cpp', 'src/simulation/case/simulation_case.cpp'],
     [('case counting', 'MonteCarloSimulationExecutor::WillExecuteNextCase, AtTheEndOfEachCase'), ('draws', 'InitializedMonteCarloParameters::Randomize'), ('registry of objects', 'SimulationObject')],
     ['drawn parameters', 'case logs'], technique='seeded campaigns with aborted and repeated cases, compared with fresh-process runs')

prop('D03', 'Spacecraft in one simulation do not disturb each other',
     'Adding, removing or reconfiguring one spacecraft in a multi-spacecraft simulation leaves the trajectory, environment, disturbances, component outputs and logs of every other spacecraft unchanged, unless that spacecraft is explicitly configured relative to it (and apart from the realisation of random noise, whose seeds are handed out in the order of construction).',
     ['configurations', 'histories'], 'every set of spacecraft configurations and every order of removal',
     'No test instantiates a spacecraft; coupling through shared or static state shows only when two differently configured spacecraft live in one process.',
     ['src/simulation/spacecraft/spacecraft.cpp', 'src/disturbances/', 'src/environment/local/', 'src/components/'],
     [('per-spacecraft ownership', 'Spacecraft::Initialize'), ('per-spacecraft update', 'Spacecraft::Update')],
     ['per-spacecraft state'], technique='paired seeded runs with and without the other spacecraft')

prop('C01', 'A serial link delivers bytes in order, exactly once, in both directions',
     'Bytes written to one side of a simulated serial link are read on the other side unmodified, in order and exactly once, as long as no more bytes are outstanding than the configured buffer holds, for any fragmentation of writes and reads and independently in the two directions and on different ports. A read returns no more bytes than were written and not yet read, writing and reading unconnected or closed ports is rejected with an error and no effect, and no access leaves the given buffers.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving of writes, reads, connects and disconnects, every fragment size and buffer size, including wrap-around and overrun',
     'There are no tests of the ports; ring buffer faults need particular fill levels reached by particular interleavings.',
     ['src/utilities/ring_buffer.cpp', 'src/components/ports/uart_port.cpp', 'src/components/real/cdh/on_board_computer.cpp'],
     [('ring buffer', 'RingBuffer::Write, RingBuffer::Read'), ('port table', 'OnBoardComputer::ConnectComUart, SendFromObc, ReceivedByCompo, SendFromCompo, ReceivedByObc')],
     ['bytes returned by reads', 'return codes'], technique='seeded link schedules against per-direction FIFO models, memory-checked')

prop('C02', 'Commands and telemetry survive any fragmentation of the serial stream',
     'A component attached to an on-board computer by a serial line hands its command parser the bytes it has received, in order, without loss or invention, and a telemetry frame it generates arrives at the computer complete and unmodified, for any fragmentation, delay, loss, duplication or corruption of the bytes on the line and any power cycling of the component. A burst larger than the receive buffer, a truncated or malformed command, or telemetry of any length never leads to an access outside the buffers and never stops later well-formed exchanges from working.',
     ['schedules', 'fault_sequences', 'inputs'], 'every command stream, fragmentation, link fault sequence and power cycle',
     'No test drives a component over a link; the failures need bursts and partial frames at particular buffer fill levels.',
     ['src/components/base/uart_communication_with_obc.cpp', 'src/components/examples/example_serial_communication_with_obc.cpp', 'src/components/real/cdh/on_board_computer.cpp'],
     [('receive and parse', 'UartCommunicationWithObc::ReceiveCommand'), ('telemetry', 'UartCommunicationWithObc::SendTelemetry')],
     ['parser input', 'bytes received by the computer'], technique='seeded lossy serial link and power cycling around real components, memory-checked')

prop('C03', 'I2C registers behave as one addressed memory per device',
     'A value written to a register of a device on a bus is what the next read of that register returns, on whichever side it is read, and no other register, device, bus or command changes; reads and writes of several bytes cover consecutive registers starting at the given one, and a bus read without an address starts at the register addressed last on that bus and advances by one register per byte. A component reads exactly the bytes of the latest command written to its own device. Accesses to unknown ports are rejected with an error and no effect, registers beyond the register space are never written, read as zero and never alias others.',
     ['histories', 'schedules', 'inputs'], 'every interleaving of register and command accesses of controller and targets, all addresses and lengths',
     'No tests exist for the bus; aliasing between registers and devices shows only over access histories.',
     ['src/components/ports/i2c_port.cpp', 'src/components/real/cdh/on_board_computer.cpp', 'src/components/base/i2c_target_communication_with_obc.cpp'],
     [('register file', 'I2cPort::WriteRegister, ReadRegister'), ('command buffer', 'I2cPort::WriteCommand, ReadCommand'), ('bus access', 'OnBoardComputer::I2cWriteRegister and friends')],
     ['register contents seen from both sides'], technique='seeded bus access histories against a register-map model')

prop('C04', 'A GPIO line always shows the last level driven and reports every edge',
     'Reading a connected general-purpose line returns the level most recently driven by either side, a component attached to the line is notified exactly once for each change of level with the right direction and never without a change, and lines do not influence each other. Driving, reading or connecting invalid or already used lines is rejected without effect.',
     ['histories', 'schedules'], 'every interleaving of drives, reads, connects and disconnects on all lines',
     'No tests exist for the lines; edge reporting is a property of histories.',
     ['src/components/ports/gpio_port.cpp', 'src/components/real/cdh/on_board_computer.cpp', 'src/components/base/gpio_connection_with_obc.cpp'],
     [('line state and edge notification', 'GpioPort::DigitalWrite'), ('line table', 'OnBoardComputer::GpioConnectPort')],
     ['levels read', 'edge notifications'], technique='seeded line histories against a level model')

prop('C05', 'SLIP framing and byte-order codecs are lossless and never over-read',
     'Decoding an encoded packet returns the original payload for every payload, including payloads full of the special bytes, and a packet boundary is recognised only at a genuine delimiter. Decoding truncated, corrupted or interleaved line data never reads or writes outside its buffers and never prevents a following intact packet from being decoded. Converting values to the wire byte order and back is the identity.',
     ['inputs', 'fault_sequences'], 'every payload and every corruption, truncation, duplication or interleaving of the framed byte stream',
     'The codec has no test; escapes at buffer ends need particular byte patterns at particular positions.',
     ['src/utilities/slip.cpp', 'src/utilities/endian.cpp'],
     [('framing', 'encode_slip, decode_slip, decode_slip_with_header'), ('byte order', 'endian_memcpy')],
     ['decoded payloads'], technique='seeded framed streams with line faults, memory-checked')

prop('C06', 'Scripted ground commands are sent once each, in order and on time',
     'Every command of an operation script is delivered to the flight software exactly once, in script order, with the encoding of the command database, and not before the waits that precede it have elapsed; the script then ends and nothing more is sent. Comments, blank, malformed and unknown lines are skipped without sending anything, stopping the script or touching memory outside it. The flight software itself is initialised once and then runs the configured number of cycles at every tick at which its computer is due and powered.',
     ['inputs', 'schedules', 'configurations'], 'every operation script, wait pattern, step size, prescaler and power history',
     'No test runs a script; timing and ordering depend on the tick history.',
     ['src/components/real/communication/wings_command_sender_to_c2a.cpp', 'src/setting_file_reader/wings_operation_file.cpp', 'src/setting_file_reader/c2a_command_database.cpp'],
     [('script execution', 'WingsCommandSenderToC2a::MainRoutine'), ('script reading', 'WingsOperationFile::GetLatestLine'), ('command lookup', 'C2aCommandDatabase::GetCommandInformation'), ('cycles', 'ObcWithC2a::MainRoutine')],
     ['commands handed to the flight software'], technique='seeded scripts and tick schedules against a script interpreter model')

prop('O01', 'The log is a faithful, rectangular record of the run',
     'The log has one header row and then one row per logging instant, every row has exactly the columns of the header, and each value is the value the logged object had at that instant, with the row time equal to the simulated time. Every enabled log source of the simulation, the spacecraft, its subsystems and its components has its columns; disabling the log of one object removes exactly its columns and changes nothing else, and logging or not logging never changes the simulated trajectory.',
     ['configurations', 'histories'], 'every set of spacecraft, components and enabled log sources, every logging period and run length',
     'No test writes a log; a column or row mismatch depends on the combination of enabled objects and on the instant of logging.',
     ['src/logger/logger.cpp', 'src/logger/log_utility.hpp', 'src/simulation/case/simulation_case.cpp'],
     [('row writing', 'Logger::WriteHeaders, WriteValues'), ('main loop', 'SimulationCase::Main')],
     ['log file'], technique='seeded whole-simulation runs, log compared with recorded object state')

prop('O02', 'Disk faults and crashes cost at most the tail of the log',
     'If the run is killed at any point or the log disk fails for good, fills up or accepts writes only in parts, the log file is a byte-exact prefix of the log an undisturbed run would have written, and all rows before the fault that had been handed to the disk survive. The simulation itself continues with an unchanged trajectory, a log file that cannot be opened or a copy of a settings file that already exists is not fatal, and with saving enabled the log directory holds unchanged copies of the settings files the run was started with, and restarting the simulation never alters logs or copied settings of earlier runs started at another time.',
     ['crash_points', 'fault_sequences'], 'every crash point, write error, short write, full disk and restart history',
     'It needs controlled disk faults and crashes at arbitrary points, which no unit test injects.',
     ['src/logger/logger.cpp', 'src/logger/initialize_log.cpp'],
     [('file writing', 'Logger::Write'), ('log directory', 'Logger::CreateDirectory, CopyFileToLogDirectory')],
     ['bytes on the simulated disk'], technique='fault-injecting disk (errors, short writes, full disk, crash at any write) under whole simulations')

prop('P01', 'Power is delivered exactly when supply and current limits allow',
     'A power port is on exactly when its voltage has reached its minimum and its current limit is not exceeded; while on, the current it draws is its assumed power divided by its voltage, while off it draws nothing, and an over-current trip removes the voltage. A power control unit holds at most one port per number, connects and closes ports independently of each other, and voltage changes on one port never affect another.',
     ['histories', 'fault_sequences', 'configurations'], 'every history of voltage settings, dips, surges, power-demand changes, port connection and closing',
     'No test covers the power bus; trips and under-voltage are histories of faults.',
     ['src/components/ports/power_port.cpp', 'src/components/real/power/power_control_unit.cpp'],
     [('port state', 'PowerPort::Update, SetVoltage_V, AddAssumedPowerConsumption_W'), ('port table', 'PowerControlUnit::ConnectPort, ClosePort')],
     ['port state'], technique='seeded brown-out/surge/connect histories against a port model')

prop('P02', 'Battery charge and bus power are conserved and stay physical',
     'The depth of discharge changes by exactly the integral of the charge current over elapsed time relative to the capacity, the battery voltage is the configured discharge curve at the present depth of discharge, and the generated power is never negative and follows the illumination of the panel. The bus controller charges no faster than its configured rate and to no more than its configured voltage, and whatever the load and illumination do, all these quantities remain finite numbers.',
     ['histories', 'fault_sequences', 'configurations'], 'every history of eclipses, attitude, load steps and power faults, every update period and prescaler',
     'No test covers the power components; conservation and finiteness are properties of long load histories.',
     ['src/components/real/power/battery.cpp', 'src/components/real/power/pcu_initial_study.cpp', 'src/components/real/power/solar_array_panel.cpp', 'src/components/real/power/csv_scenario_interface.cpp'],
     [('coulomb counting', 'Battery::MainRoutine'), ('bus voltage and charge current', 'PcuInitialStudy::MainRoutine'), ('generation', 'SolarArrayPanel::MainRoutine')],
     ['battery, panel and controller state'], technique='seeded load/eclipse histories against an energy bookkeeping model')

prop('N01', 'Sensor outputs respect range, rate and power whatever the truth does',
     'Every sensor reading is the true quantity in the sensor frame passed through its configured scale, bias and noise, never outside its configured output range, and equal to the exact transformed truth when all errors are configured to zero. Readings change only at ticks on which the sensor is due and powered, delayed outputs are the truth of the configured delay earlier, and warnings such as sun, Earth, moon or rate exclusion agree with the simulated geometry at the sampling instant.',
     ['histories', 'inputs', 'fault_sequences', 'configurations'], 'every trajectory, configuration, noise seed and power history',
     'No test covers the sensors; saturation, hold and delay are properties of histories of truth and power.',
     ['src/components/base/sensor.hpp', 'src/components/base/sensor_template_functions.hpp', 'src/components/real/aocs/'],
     [('error model', 'Sensor<N>::Measure'), ('sensor routines', 'GyroSensor, Magnetometer, StarSensor, SunSensor, GnssReceiver MainRoutine')],
     ['sensor outputs against simulated truth'], technique='seeded trajectories and power faults, outputs compared with recomputed truth')

prop('A01', 'Actuators obey commands and limits and fall silent without power',
     'The output of every actuator corresponds to its latest command passed through its configured delay, alignment, limits and errors: the commanded part of a magnetic moment, thrust or torque stays inside its limits, configured errors (and only they) add to it and do not build up, torque is the moment arm or field cross product of the produced force or moment, and holding a command holds the output. From the first tick without power the actuator produces no force or torque, and after power returns it again follows its commands.',
     ['histories', 'fault_sequences', 'inputs', 'configurations'], 'every command history, power cycle, geometry and tick pattern',
     'No test covers the actuators; compounding errors and stale outputs appear only over command and power histories.',
     ['src/components/real/aocs/magnetorquer.cpp', 'src/components/real/propulsion/simple_thruster.cpp', 'src/components/ideal/force_generator.cpp', 'src/components/ideal/torque_generator.cpp', 'src/components/real/aocs/reaction_wheel.cpp'],
     [('magnetic torque', 'Magnetorquer::MainRoutine, PowerOffRoutine'), ('thrust', 'SimpleThruster::MainRoutine, PowerOffRoutine'), ('ideal generators', 'ForceGenerator, TorqueGenerator')],
     ['generated forces and torques'], technique='seeded command and power-cycle histories against actuator models')

prop('A02', 'A reaction wheel exchanges momentum with the body and loses none',
     'The torque a wheel applies to the body is, at every tick, minus the rate of change of the angular momentum stored in the wheel along its axis, so that body and wheel together conserve angular momentum. Commanded torque and wheel speed stay within their limits, a command takes effect only after the configured dead time and lag, a wheel that is not driven only slows down by friction, and an unpowered wheel applies no torque and forgets the commands that were still on their way. When jitter is considered, its radial force and torque follow each harmonic of the wheel speed through the configured structural resonance, and vanish without power and leave nothing behind.',
     ['histories', 'fault_sequences', 'configurations'], 'every torque command history, drive switching, power cycle and wheel configuration',
     'No test covers the wheel; momentum balance is a property of the whole command history.',
     ['src/components/real/aocs/reaction_wheel.cpp', 'src/components/real/aocs/reaction_wheel_ode.cpp', 'src/components/real/aocs/reaction_wheel_jitter.cpp'],
     [('wheel torque', 'ReactionWheel::CalcTorque'), ('wheel dynamics', 'ReactionWheelOde')],
     ['output torque and wheel speed'], technique='seeded command/power histories, momentum ledger')

prop('Q01', 'Attitude propagation keeps unit quaternions and conserves momentum',
     'The attitude quaternion stays of unit length for the whole run, the reported angular momentum and kinetic energy are those of the current rate and inertia, and with no external torque the inertial angular momentum and (for a rigid body) the rotational energy stay constant within integration accuracy; with an applied torque the momentum changes by the time integral of that torque. Every update ends exactly at the requested time, and splitting the same interval into different numbers of updates gives the same motion.',
     ['histories', 'inputs', 'configurations'], 'every inertia tensor, initial state, torque history, integration step and update pattern',
     'No test covers attitude dynamics; conservation is a property of long trajectories.',
     ['src/dynamics/attitude/attitude_rk4.cpp', 'src/dynamics/attitude/attitude_with_cantilever_vibration.cpp', 'src/dynamics/attitude/attitude.cpp', 'src/dynamics/attitude/ode_attitude.hpp'],
     [('integration', 'AttitudeRk4::Propagate, RungeKuttaOneStep'), ('momentum bookkeeping', 'Attitude::CalcAngularMomentum')],
     ['attitude getters'], technique='seeded torque and update schedules, conservation and refinement checks')

prop('Q02', 'Commanded pointing modes point where they say',
     'In every controlled attitude mode the main body axis points to its target (inertial reference, sun, Earth centre, velocity, ground target or orbit normal) and, among all such attitudes, the sub axis is as close to its own target as possible, at every update and for every geometry along the trajectory; a spacecraft that is only initialised by a pointing mode starts in exactly that attitude, at rest, and then moves freely. The reported body rate is the rate of change of the reported attitude, and configurations without a unique solution are rejected instead of producing an arbitrary attitude.',
     ['configurations', 'histories', 'inputs'], 'every pair of modes and axes and every point of every trajectory',
     'No test covers pointing; degenerate geometry occurs at particular points of a trajectory.',
     ['src/dynamics/attitude/controlled_attitude.cpp', 'src/dynamics/attitude/initialize_attitude.cpp'],
     [('pointing solution', 'ControlledAttitude::PointingControl, CalcDcm'), ('rate', 'ControlledAttitude::CalcAngularVelocity')],
     ['attitude against recomputed target directions'], technique='seeded mode/trajectory combinations, geometric oracle')

prop('R01', 'All orbit propagators agree with physics and with each other',
     'An orbit starts at the state its own section of the settings describes. Without perturbing acceleration every propagator follows the two-body solution for its initial state: energy and angular momentum stay constant and positions from numerical, Keplerian and Encke propagation agree within integration accuracy; with the same perturbing acceleration numerical and Encke propagation agree. Every update ends exactly at the requested time whatever the integration step, tabulated orbits reproduce their table entries, and the reported velocities, body-frame velocities, geodetic positions and local frames are consistent with the reported inertial position and velocity.',
     ['histories', 'inputs', 'configurations'], 'every orbit, acceleration history, update and integration step, including rectification and window changes mid-run',
     'No test covers orbit propagation; drift and wrong rectification appear only over long histories.',
     ['src/dynamics/orbit/'],
     [('numerical', 'Rk4OrbitPropagation::Propagate'), ('Encke', 'EnckeOrbitPropagation::Propagate'), ('Kepler', 'KeplerOrbitPropagation::Propagate'), ('relative', 'RelativeOrbit::Propagate'), ('table', 'TimeSeriesFileOrbitPropagation::Propagate'), ('derived quantities', 'Orbit::UpdateByAttitude, TransformEciToEcef, TransformEcefToGeodetic')],
     ['orbit getters'], technique='seeded orbits, acceleration and update schedules; cross-propagator and two-body reference')

prop('R02', 'Relative states between spacecraft are mutually consistent',
     'For every ordered pair of spacecraft the relative position, velocity, distance and attitude are exactly the difference of the two absolute states at that instant, expressed in the stated frame, so that swapping the pair inverts the result, the distance equals the length of the relative position in either frame, and a spacecraft relative to itself is at the origin. This holds for any number of spacecraft, also after spacecraft have been added or removed.',
     ['histories', 'configurations'], 'every number of spacecraft, trajectory and add/remove history',
     'No test instantiates more than one spacecraft.',
     ['src/simulation/multiple_spacecraft/relative_information.cpp'],
     [('pairwise update', 'RelativeInformation::Update'), ('registration', 'RelativeInformation::RegisterDynamicsInfo, RemoveDynamicsInfo')],
     ['relative getters against absolute states'], technique='seeded multi-spacecraft runs with joins and departures')

prop('F01', 'All forces and torques are applied exactly once per step',
     'In every step the total force, torque and acceleration acting on a spacecraft equal the sum over its enabled disturbances and its components at that step, each counted exactly once and nothing left over from earlier steps. A disabled disturbance contributes exactly nothing, a disturbance is recomputed when the state it depends on is updated and keeps its last value otherwise, and body- and inertial-frame values of the same quantity are related by the current attitude. A residual magnetic moment with noise wanders around its constant value with the configured spread and within the configured limit, and acts as a torque of a magnetic moment.',
     ['configurations', 'histories', 'schedules'], 'every set of enabled disturbances, update periods and component activity',
     'No test assembles a spacecraft; double counting or stale values depend on the interplay of update periods.',
     ['src/simulation/spacecraft/spacecraft.cpp', 'src/disturbances/disturbances.cpp', 'src/disturbances/disturbance.hpp', 'src/dynamics/dynamics.cpp'],
     [('step order', 'Spacecraft::Update'), ('disturbance sum', 'Disturbances::Update'), ('accumulation', 'Dynamics::ClearForceTorque, AddForce_b_N, AddTorque_b_Nm')],
     ['disturbance, component and dynamics getters'], technique='seeded whole-spacecraft runs with independent force ledger')

prop('F02', 'Every disturbance obeys its own law',
     'Gravity gradient torque, magnetic torque, solar radiation pressure, air drag, third-body gravity and the gravity field of the Earth follow, for every attitude, orbit and structure, the law of the effect: the gravity gradient torque is that of the inertia tensor in the field of the centre body and never turns the spacecraft about the vertical; the magnetic torque is perpendicular to moment and field; radiation pressure pushes away from the sun and drag against the motion through the atmosphere rotating with the Earth, on the surfaces facing it only, in proportion to pressure, density and area and with the configured optical and accommodation properties, with the torque of these forces about the centre of mass, and vanish in darkness and vacuum; third-body gravity is the tidal difference for the listed bodies; and the gravity field is, at every degree configured, the gradient of the potential in the coefficient file turned with the Earth, and the derivative offered for estimation is the derivative of that acceleration and has no trace.',
     ['configurations', 'inputs', 'histories'], 'every structure, attitude, orbit, gravity field degree and set of enabled disturbances',
     'Unit tests compare single disturbances at single points with stored numbers; the laws have to hold for every geometry met along a trajectory and with the environment of that moment.',
     ['src/disturbances/gravity_gradient.cpp', 'src/disturbances/surface_force.cpp', 'src/disturbances/air_drag.cpp', 'src/disturbances/solar_radiation_pressure_disturbance.cpp', 'src/disturbances/third_body_gravity.cpp', 'src/disturbances/magnetic_disturbance.cpp', 'src/disturbances/geopotential.cpp', 'src/math_physics/gravity/gravity_potential.cpp'],
     [('gravity gradient', 'GravityGradient::CalcTorque_b_Nm'), ('surface forces', 'SurfaceForce::CalcTorqueForce, AirDrag::CalcCnCt, SolarRadiationPressureDisturbance::CalcCoefficients'), ('gravity field', 'Geopotential::Update, GravityPotential::CalcAcceleration_xcxf_m_s2, CalcPartialDerivative_xcxf_s2')],
     ['disturbance getters against laws recomputed from the environment of the same instant'], technique='seeded missions with single disturbances, laws recomputed independently at every step')

prop('M01', 'Missions around the Moon, the Sun and planets obey their own centre body',
     'A mission whose centre body is not the Earth is propagated around that body: undisturbed motion is two-body motion with the gravitational constant of the centre, all positions and velocities of the selected bodies are relative to that centre, third-body gravity is the difference between the attraction of the listed bodies on the spacecraft and on the centre, and gravity gradient torque, radiation pressure and pointing follow the same geometry. Around the Moon the lunar gravity field acts as the gradient of the potential in the coefficient file, rotated by the selected rotation model of the Moon, which always is the rotation at the current time. Models of the Earth only (atmosphere, geomagnetic field, drag, geopotential, magnetic disturbance) contribute exactly nothing, and a missing, damaged or short coefficient file disables the field instead of falsifying it or terminating the program. The gravity gradient offered for estimation is the derivative of the acceleration of the same field.',
     ['configurations', 'inputs', 'histories', 'fault_sequences'], 'every centre body, selection order of bodies, rotation model, orbit, gravity field degree and coefficient file, set of disturbances and update periods',
     'The tests of the gravity potential use one degree at a few points; no test runs a simulation around another centre body or reads a damaged coefficient file.',
     ['src/disturbances/lunar_gravity_field.cpp', 'src/math_physics/gravity/gravity_potential.cpp', 'src/environment/global/moon_rotation.cpp', 'src/math_physics/planet_rotation/moon_rotation_utilities.cpp', 'src/disturbances/third_body_gravity.cpp', 'src/environment/global/celestial_information.cpp'],
     [('field', 'LunarGravityField::Update, GravityPotential::CalcAcceleration_xcxf_m_s2'), ('coefficient file', 'LunarGravityField::ReadCoefficientsGrgm1200a'), ('moon rotation', 'MoonRotation::Update, CalcDcmEciToPrincipalAxis'), ('selection by centre body', 'Disturbances::InitializeInstances, LocalEnvironment::Initialize')],
     ['disturbance, orbit, attitude and environment getters', 'GravityPotential'], technique='seeded missions around other centre bodies with damaged gravity files against own formulas')

prop('E01', 'Sunlight and shadow are physical for every geometry',
     'The shadow coefficient is always between 0 and 1, is 1 when no configured body covers any of the sun, 0 when one covers it completely, equals the uncovered fraction of the solar disc for partial and annular eclipses, and adding a shadowing body never makes it brighter. Radiation pressure and solar power decrease with the square of the distance to the sun and are scaled by that coefficient; albedo and infrared inputs are non-negative and vanish when disabled.',
     ['inputs', 'configurations', 'histories'], 'every position of the spacecraft relative to sun and shadowing bodies, every list of shadow sources',
     'No test covers the radiation environment; annular and multi-body eclipses occur at rare points of trajectories.',
     ['src/environment/local/solar_radiation_pressure_environment.cpp', 'src/environment/local/earth_albedo.cpp', 'src/environment/local/earth_infrared.cpp'],
     [('eclipse model', 'SolarRadiationPressureEnvironment::CalcShadowCoefficient'), ('flux', 'SolarRadiationPressureEnvironment::UpdatePressure')],
     ['environment getters'], technique='seeded trajectories through eclipses, disc-overlap oracle')

prop('E02', 'Local environment always describes the current position and attitude',
     'Directions and distances to celestial bodies, the magnetic field, the air density and the Earth rotation seen by a spacecraft are those of its current position, attitude and time: body-frame values are the inertial ones rotated by the current attitude, inertial-to-Earth-fixed conversion is a proper rotation that round-trips, noise-free fields are functions of position and time only, and air density is non-negative and, within the altitude range of a model, decreases with altitude. Configured noise of the field and of the air density is present, independent between axes, of the configured spread and within the configured limit. A disabled environment model keeps its output at its documented neutral value.',
     ['configurations', 'histories', 'inputs'], 'every trajectory, epoch, set of bodies, rotation mode and field model',
     'The environment sources that need external libraries are not even built for the tests.',
     ['src/environment/local/', 'src/environment/global/celestial_information.cpp', 'src/environment/global/earth_rotation.cpp', 'src/environment/global/moon_rotation.cpp'],
     [('local update', 'LocalEnvironment::Update'), ('bodies', 'LocalCelestialInformation::UpdateAllObjectsInformation'), ('Earth rotation', 'EarthRotation::Update')],
     ['environment getters'], technique='seeded trajectories, recomputed geometry oracle')

prop('H01', 'Heat is conserved between nodes and heaters switch with hysteresis',
     'Heat exchanged between thermal nodes leaves one node and enters the other in equal amount, so that an isolated configuration keeps its total heat, temperatures stay between the extremes that drive them, and external heat is exactly the configured load at the elapsed time plus heater power plus absorbed sunlight. A heater turns on only below its lower threshold and off only above its upper threshold and otherwise keeps its state; every thermal update ends exactly at the requested time.',
     ['configurations', 'histories', 'inputs'], 'every network of nodes, heat-load table, heater set-up and update period, including table wrap-around',
     'No test covers the thermal model; hysteresis and periodic tables are properties of histories.',
     ['src/dynamics/thermal/'],
     [('integration', 'Temperature::Propagate, CalcTemperatureDerivative'), ('heater control', 'Temperature::UpdateHeaterStatus'), ('load table', 'Heatload::CalcInternalHeatload')],
     ['node temperatures, heater states, heat loads'], technique='seeded thermal networks and schedules, energy ledger and hysteresis model')

prop('G01', 'GNSS ephemerides agree with their source files at all times',
     'At every time between the first and the last epoch of the loaded product files, positions and clock offsets of navigation satellites equal the entries of the files at their epochs and follow the orbit in between and across file boundaries, whatever the step of the simulation. Satellites, times and indices without valid data are reported as such (zero), never with invented positions. Receiver position and time outputs and the set of visible satellites agree with the simulated geometry at each sampling instant.',
     ['inputs', 'histories', 'fault_sequences'], 'every start time and duration relative to the product files, missing records and bad-data markers',
     'Existing tests parse one sample file; interpolation windows moving over days, gaps and file changes are not covered.',
     ['src/environment/global/gnss_satellites.cpp', 'src/math_physics/gnss/', 'src/math_physics/orbit/interpolation_orbit.cpp', 'src/components/real/aocs/gnss_receiver.cpp'],
     [('table window', 'GnssSatellites::Update'), ('interpolation', 'InterpolationOrbit'), ('receiver', 'GnssReceiver::MainRoutine')],
     ['satellite positions and clocks', 'receiver output'], technique='seeded synthetic product files with gaps and time sweeps, analytic constellation oracle')

prop('G02', 'Ground contacts and link budgets agree with the geometry',
     'A spacecraft is reported visible from a ground station exactly when its elevation above the local horizon exceeds the configured minimum, at every instant and for every station, and the station position rotates with the Earth. The reported link margin decreases with distance and pointing loss as the link equation prescribes, with the antenna gains the radiation patterns list nearest to the actual directions, and without visibility no positive data rate is reported.',
     ['histories', 'configurations', 'inputs'], 'every trajectory, station location, antenna configuration and epoch',
     'No test covers ground stations; passes are properties of trajectories.',
     ['src/simulation/ground_station/ground_station.cpp', 'src/components/real/communication/ground_station_calculator.cpp', 'src/components/real/communication/antenna.cpp'],
     [('visibility', 'GroundStation::CalcIsVisible'), ('link budget', 'GroundStationCalculator::CalcReceiveMarginOnGs, CalcMaxBitrate'), ('gain', 'Antenna::CalcAntennaGain')],
     ['visibility, margin and bit rate'], technique='seeded passes, geometric and link-equation oracle')

prop('X01', 'Damaged or missing settings and data files fail cleanly',
     'Whatever file, line, value or row of the configuration of a mission is missing, empty, truncated, duplicated or garbled, starting and running the mission either works or stops with a diagnosis (an exception, an error exit or a failed assertion); it never accesses memory it does not own, never hangs, and never lets results depend on uninitialised memory (two runs of the same damaged mission agree). A settings file that is absent, or that has a line that is neither a section, an entry nor a comment, is refused as a whole, an entry that is missing from a settings file counts as an entry without a value, intact entries keep their exact values regardless of damage elsewhere in the file, and damage in the files of a spacecraft does not change the results of the spacecraft listed before it.',
     ['fault_sequences', 'inputs'], 'every file of the configuration and every truncation, deletion, duplication or corruption of its contents',
     'Tests read intact files only.',
     ['src/setting_file_reader/', 'src/components/real/', 'src/dynamics/thermal/', 'src/environment/'],
     [('ini access', 'IniAccess'), ('table readers', 'ReadCsvDouble, table initialisers')],
     ['process outcome, values read'], technique='seeded storage faults on every file of the configuration, memory-checked')

prop('H02', 'Hardware-in-the-loop ports relay exactly what the wire carries',
     'A hardware serial or I2C port delivers to the simulated component exactly the bytes that arrived on its cable, in order and at most once, and puts on the cable exactly the bytes the component sent, for any fragmentation, loss, failing write or unplugging. An emulated I2C target keeps the registers addressed by either side, sends the registers from the one addressed last and counts exactly the telemetry frames waiting in the converter. A port has at most one owner: a second component of the same kind is rejected without disturbing the owner, also when it goes away again, and a port is released when its owner goes away, without affecting other ports.',
     ['schedules', 'fault_sequences', 'histories'], 'every interleaving of wire activity, component activity, connects and closes',
     'The hardware ports are not even compiled for the tests.',
     ['src/simulation/hils/hils_port_manager.cpp', 'src/components/ports/hils_i2c_target_port.cpp', 'src/components/base/i2c_controller.cpp', 'src/components/base/uart_communication_with_obc.cpp'],
     [('port ownership', 'HilsPortManager'), ('register emulation', 'HilsI2cTargetPort')],
     ['bytes on the simulated wire'], technique='simulated serial wire behind the port manager, seeded faults')

prop('T04', 'All representations of an instant agree',
     'An instant keeps its identity through every representation the library offers (epoch time, GPS week and time of week, calendar date, their texts) and every chain of conversions between them: spacecraft, receivers and ground segments that exchange time stamps in any of these forms, delayed, repeated or out of order, attribute them to the same instant. Sums and differences of instants are exact to the resolution, equal advancing a clock in any number of smaller steps and keep all fields in range; comparisons order instants as the clocks that produced them; illegible stamps lead to a defined value or an exception.',
     ['histories', 'inputs', 'schedules'], 'every history of ticks, jumps and exchanged stamps, every instant between the GPS epoch and the end of the supported calendar, every resolution',
     'Tests convert a handful of dates; carries at full seconds, weeks, leap days and fractions close to one are reached by clock histories only.',
     ['src/math_physics/time_system/epoch_time.cpp', 'src/math_physics/time_system/gps_time.cpp', 'src/math_physics/time_system/date_time_format.cpp'],
     [('arithmetic', 'EpochTime::operator+, operator-, comparisons'), ('GPS time', 'GpsTime'), ('calendar', 'DateTime')],
     ['fields and texts of the representations'], technique='seeded clocks exchanging stamps over a lossy simulated wire, integer reference clock')

prop('G03', 'Product files of navigation services are read exactly or refused',
     'Antenna phase centres (ANTEX), signal biases (Bias-SINEX) and orbits (SP3) read from a product file are exactly the entries of that file, each under the satellite, validity, frequency, signal and epoch it was published for. If the file is cut, garbled, missing or its disk fails, the entries completed before the damage are unaffected, none is made up, the reader comes back within bounded time without touching foreign memory, does not depend on uninitialised memory, and reports an incomplete file as such. Names and indices of navigation satellites correspond one to one.',
     ['inputs', 'fault_sequences'], 'every product file, every truncation or corruption and every read error or short read of the disk',
     'Tests read one intact sample file per format.',
     ['src/math_physics/gnss/antex_file_reader.cpp', 'src/math_physics/gnss/bias_sinex_file_reader.cpp', 'src/math_physics/gnss/sp3_file_reader.cpp', 'src/math_physics/gnss/gnss_satellite_number.cpp'],
     [('antennas', 'AntexFileReader'), ('biases', 'BiasSinexFileReader'), ('orbits', 'Sp3FileReader'), ('numbering', 'ConvertGnssSatelliteNumberToIndex')],
     ['reader results, success flags, process outcome'], technique='seeded synthetic product files, storage faults below the file streams, memory-checked')

prop('I01', 'Numerical integration follows the equation with the order of its method',
     'Whatever the equation, step width, direction and dimension, and through any history of jumps in time, corrections of the state, changes of the step width, exchanges of the method and restarts from a saved time and state, every step of every integrator (Runge-Kutta 4, Runge-Kutta-Fehlberg, Dormand-Prince 5, the simple equation class) arrives at the solution of the equation with an error of the order of its method, evaluates the equation only within the step, and gives the same result when it is repeated. States between the steps lie on the solution of the latest step and do not depend on later changes of the step width. The error estimate of the embedded methods is finite and of the order of the lower method; the step width control widens the step when the tolerance exceeds the error, narrows it when it is below, and never leads to a step that is not finite or does not advance.',
     ['histories', 'inputs', 'schedules'], 'every smooth equation, every step width within the range of convergence, every history of changes',
     'Tests integrate four example equations forwards with one step width from one state.',
     ['src/math_physics/numerical_integration/', 'src/math_physics/math/ordinary_differential_equation_template_functions.hpp'],
     [('steps', 'RungeKutta::Integrate, EmbeddedRungeKutta::Integrate, OrdinaryDifferentialEquation::Update'), ('dense output', 'CalcInterpolationState'), ('step control', 'EmbeddedRungeKutta::ControlStepWidth')],
     ['states, states between steps, error estimates, evaluation times'], technique='seeded equations and histories of faults on the integrating process, fine-grained reference integration')
