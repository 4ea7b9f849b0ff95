prop('C01', 'Motor speeds never leave their limits',
     'After any successful update of the vehicle dynamics, whatever the commanded motor speeds, the stored motor speeds, the duration, the external force and the process noise, every motor speed lies between that motor\'s own minimum and maximum speed. This holds for any number of motors and for motors with different limits.',
     ['inputs', 'configurations', 'histories'], 'all accepted vehicle models, all states (including motor speeds outside the limits), all commands, all positive durations, noise on or off',
     'Tests drive a handful of commands and one symmetric set of motor limits; the bound has to hold for every command, every start and every duration, including durations integrated in many sub steps.',
     [DY], [('limiting of the command and of the integrated speed', DY + ' process_euler_explicit, clamp_motors_angular_velocity')],
     'Quad, hexa, double and float; loop over sub steps by an inferred inductive invariant, so for any duration.')
prop('C02', 'Motors respond as first order lags to the limited command',
     'In an integration step, each motor\'s angular acceleration is the difference between its command limited to its own speed range and its current speed, divided by its own time constant, and its new speed is the old speed plus acceleration times the step, limited to its range. A command held for any duration never makes a motor whose time constant is at least the step overshoot the command or move away from it.',
     ['inputs', 'configurations'], 'all models, states, commands; steps of at most 10 ms for the exact law, all positive durations for the absence of overshoot (time constant at least 10 ms)',
     'Tests compare a few trajectories of identical motors; mixing up motors, limits or time constants, or a wrong step, shows only for motors that differ or for unusual durations.',
     [DY], [('motor lag and integration', DY + ' get_motors_angular_velocity_derivative, process_euler_explicit')],
     'Exact law for one and two sub steps, monotone approach for any duration by induction.')
prop('C03', 'Translation obeys Newton\'s second law',
     'In an integration step the total force in the world frame is the rotated motor thrust plus mass times gravity plus aerodynamic drag plus process noise plus the external force; the acceleration is that force divided by the mass, the velocity grows by acceleration times the step and the position by the old velocity times the step. The force and acceleration reported in the state are the ones used.',
     ['inputs', 'configurations'], 'all models (including tilted motors), all unit attitudes, velocities, motor speeds, external forces and steps up to 10 ms; longer updates are successions of such steps',
     'Tests check a few hover and fall trajectories; every combination of attitude, velocity, mass, gravity and force has to obey the law.',
     [DY, MO], [('force balance', DY + ' get_vehicle_linear_velocity_derivative, get_thrust_force_in_earth_frame'), ('explicit Euler integration', DY + ' process_euler_explicit')],
     'Quad, hexa, tilted motors, noise, float.')
prop('C04', 'Rotation obeys Euler\'s equation of the rigid body',
     'In an integration step the total torque is the motor torque plus the aerodynamic moment plus the moment noise minus the gyroscopic term (angular velocity cross inertia times angular velocity); inertia times the reported angular acceleration equals the reported torque and the angular velocity grows by that acceleration times the step. Motor torque includes thrust lever arms, rotor drag with the spin direction and rotor inertia times rotor acceleration.',
     ['inputs', 'configurations'], 'all models with any invertible inertia (diagonal or full), all motor poses, states and commands, steps up to 10 ms; longer updates are successions of such steps',
     'Tests use diagonal inertias and symmetric vehicles near rest, where wrong signs, transposed matrices or missing coupling terms vanish.',
     [DY, MO], [('torque balance', DY + ' get_vehicle_angular_velocity_derivative'), ('motor torque', MO + ' get_torque_by_motors')],
     'The noise clause has a recorded known finding: with noise enabled the code adds the force noise instead of the moment noise.')
prop('C05', 'Attitude stays a unit quaternion and follows the body rates',
     'After every update the attitude is a unit quaternion. In an integration step the new attitude is the normalised sum of the old one and half the step times the old attitude multiplied by the body angular velocity at the start of the step.',
     ['inputs', 'histories'], 'all unit attitudes and angular velocities, steps up to 10 ms for the exact law, all positive durations for the unit norm',
     'Tests look at few attitudes; drift of the norm or a wrong component only shows for particular attitudes and long histories.',
     [DY, UT], [('attitude derivative and normalisation', DY + ' get_vehicle_orientation_derivative, process_euler_explicit'), ('quaternion derivative', UT)],
     'Unit norm for any duration by induction over the sub steps.')
prop('C06', 'An update integrates exactly the requested time in bounded steps',
     'An update of any positive duration integrates exactly that duration in successive steps of at most 10 ms (full 10 ms steps and the remaining time), applying the same command, external force and noise setting in each. A zero or negative duration is refused with an invalid argument error, changes nothing and draws no noise; a positive one is never refused.',
     ['inputs'], 'all durations, models, states, commands and external forces',
     'Tests call the update with one or two fixed steps; durations just above or far above the maximal step, or not a multiple of it, are never compared with the succession of short updates.',
     [DY], [('sub stepping', DY + ' process_euler_explicit')],
     'Total time for any number of sub steps by closed form induction on a constant acceleration motion; equality with the succession for one (quick) and two (thorough) full sub steps.')
prop('C07', 'Motor forces and torques follow from pose, coefficients and spin',
     'Each motor contributes its thrust coefficient times the signed square of its speed along its own axis, the lever arm torque of that thrust about the vehicle origin, a reaction torque along its axis with the sign of its spin direction, and its rotor inertia times its acceleration along its axis with that sign. The force, torque, inertia and allocation matrices of the model, and the total force and torque computed from motor speeds and accelerations, are exactly these, also after the parameters are replaced.',
     ['inputs', 'configurations'], 'all motor positions, orientations (4-row form: upright motors), coefficients, spin directions, speeds of either sign and accelerations',
     'Tests use symmetric frames with equal coefficients where many wrong signs or swapped motors cancel.',
     [MO], [('allocation matrices', MO + ' compute_mixer_matrix_6D, compute_mixer_matrix_4D, compute_inertia_mixer_matrix'), ('motor wrench', MO + ' get_force_vector_thrust_by_motors, get_torque_by_motors')],
     'Quad, hexa, float; arbitrary motor rotation.')
prop('C08', 'Ready made frames place and spin every motor correctly and balance',
     'The X, plus and hexacopter frame builders put each motor at its documented place with its documented spin direction, upright, carrying the coefficients, limits, time constant and inertia given. With all motors at one speed and one acceleration such a vehicle gets pure vertical thrust equal to the sum of the motor thrusts and no torque.',
     ['inputs', 'configurations'], 'all distances, coefficients, limits, constants and common speeds (hexacopter geometry up to the rounding of the angle constants, 1e-6 relative)',
     'Tests check one set of numbers with equal x and y distances.',
     [MO], [('frame builders', MO + ' create_quadrotor_x_config, create_quadrotor_plus_config, create_hexacopter_config')],
     'Trigonometric values at the constant angles are computed, not assumed.')
prop('C09', 'Drag, aerodynamic moment and process noise obey their models',
     'Drag is minus the drag coefficient times the signed square of each velocity component, so it never feeds energy in; the aerodynamic moment is minus the rotation speed times the coefficient matrix times the angular velocity. Process noise is fresh for every step: six independent standard variates scaled by the square root of the noise density over the step, force first; without noise, or without a positive step, it is exactly zero and nothing is drawn.',
     ['inputs', 'histories', 'configurations'], 'all coefficients, velocities, angular velocities, noise densities, steps and earlier noise values',
     'Tests sample a few velocities and cannot predict random values; noise left over from an earlier step or wrongly scaled looks plausible.',
     [MO, DY], [('drag and aerodynamic moment', MO + ' get_drag_force, get_aerodynamic_moment'), ('noise', MO + ' set_stochastic_noise, disable_stochastic_noise')],
     'Random variates are uninterpreted values drawn in order.')
prop('C10', 'Vehicle parameters are accepted exactly when valid, else nothing changes',
     'Parameters offered to a vehicle model are accepted exactly when the mass is positive, the inertia determinant is positive, drag and the aerodynamic coefficient determinant are not negative, there is one motor entry per rotor, and every motor has ordered speed limits, a positive time constant and non negative inertia and coefficients. Accepted parameters are taken over completely and reported back unchanged; rejected ones leave every parameter and derived matrix as it was.',
     ['inputs', 'configurations'], 'all real parameter values, each motor independently; motor counts 3, 4, 5 against 4 and 4 against 6',
     'Tests try one bad value at a time, mostly on the first motor; any motor, any value and partial updates have to be covered.',
     [MO], [('validation', MO + ' check_params, update_params')],
     'Quad and hexa, float in the thorough tier.')
prop('C11', 'The PID law holds on every axis at every call',
     'Each output of the controller is proportional gain times error plus integral gain times accumulated error plus derivative gain times derivative error, axis by axis. The accumulated error grows by error times elapsed time (limited by its bound, dropped against the error sign when configured so), the derivative error is the given one or the filtered rate of change of the error (none at the first call), and the reported terms, errors and output are those used.',
     ['inputs', 'histories', 'configurations'], 'all gains, filter constants, bounds, errors, given derivatives, positive elapsed times, and all earlier histories; 1 to 4 axes',
     'Tests use equal gains on all axes, a constant time step and short runs; cross talk between axes, stale memory or a wrong time factor is invisible there.',
     [PID], [('PID law', PID + ' compute_control, compute_proportional_error_contribution, compute_integral_error_contribution, compute_derivative_error_contribution, compute_derivative_error_by_deriving')],
     'History covered by arbitrary memory bytes plus one arbitrary earlier call; float included.')
prop('C12', 'Limited controller outputs never exceed their limits',
     'With output limits on, every axis of the output lies between its own lower and upper limit, whatever the errors, gains and history. Plain limiting clips each axis on its own; proportional limiting (limits on both sides of zero) scales all axes by one common factor, the largest not above one that brings every axis inside, so the direction of the output is kept.',
     ['inputs', 'histories', 'configurations'], 'all errors, gains, histories and limits (proportional: limits around zero), 1 to 4 axes',
     'Tests exceed one limit on one axis at a time; several axes beyond different limits, or the sign of the limit that applies, are not exercised.',
     [PID, PID1], [('limiting', PID + ' saturate_output, compute_control')],
     'Any limits and outputs for the limiting function, any history for its application.')
prop('C13', 'The accumulated error never exceeds its anti windup bound',
     'When an anti windup bound is set, after every call the accumulated error of each axis lies between minus and plus that axis\'s bound and the integral term is the integral gain times that bounded error, whatever the history. Without any bound the accumulation is free, except that a configured sign reset drops an axis\'s accumulation when it opposes the present error.',
     ['inputs', 'histories', 'configurations'], 'all histories, errors, elapsed times, gains and bounds; vector and scalar controller',
     'Tests wind up one axis in one direction for a few calls.',
     [PID, PID1], [('anti windup', PID + ' compute_integral_error_contribution'), ('scalar anti windup', PID1)],
     'An invariant over all histories: holds from any memory.')
prop('C14', 'A reset controller behaves like a new one',
     'After a reset, a controller with any history produces for every further sequence of calls exactly the outputs of a newly built controller with the same parameters, starting with a first call without derivative. The reset itself changes no parameter.',
     ['histories', 'inputs'], 'all histories and parameters; sequences of three further calls in both forms, plus equality of the whole memory after them',
     'Tests reset after one particular run and look at one output.',
     [PID, PID1], [('reset', PID + ' reset_controller'), ('scalar reset', PID1 + ' reset_controller')],
     'Memory equality after the calls extends the result to every later call.')
prop('C15', 'PID settings are reported back, applied and independent',
     'Gains, filter constants, anti windup bounds, flags and limits given to a controller, at construction, together or one by one, are the ones reported and used; each setter changes only its own setting and none disturbs the controller\'s memory. Output limits are in force exactly when every upper limit exceeds its lower limit; otherwise, or once disabled, the output is not limited and no limits are reported. A new controller reports zero errors, contributions and output, and without parameters it has zero gains, no filter, no bound and no limits.',
     ['inputs', 'configurations', 'histories'], 'all parameter values including invalid and mixed limits, all histories; vector and scalar controller',
     'Tests set one valid and one invalid set of limits with all axes alike.',
     [PID, PID1], [('configuration', PID + ' update_pid_params, set_output_saturation, disable_output_saturation, get_params')],
     'Limits closer than the machine epsilon count as invalid.')
prop('C16', 'The scalar controller equals one axis of the vector controller',
     'Given the same parameters and the same sequence of calls, the one dimensional controller gives the same outputs, terms, reported errors and limits as a one axis vector controller.',
     ['inputs', 'histories', 'configurations'], 'all parameters, errors, elapsed times; every single step from any memory and sequences of calls from new',
     'The two classes are tested separately with their own samples and never compared.',
     [PID1, PID], [('scalar PID', PID1 + ' compute_control'), ('vector PID', PID + ' compute_control')],
     'Double and float.')
prop('C17', 'The control cascade chains the right loops on the right errors',
     'Position control turns the position error into a velocity demand, velocity control turns the velocity error into an acceleration demand, trajectory control adds the reference acceleration to its feedback on position and velocity errors, and each demand goes on to attitude, rate and motor allocation with the given heading and elapsed time. Every intermediate demand is reported, loops that take no part keep their memory, a new cascade has demanded nothing, parameters reach exactly their own loop and a reset resets every loop.',
     ['inputs', 'histories', 'configurations'], 'all states, references, headings, times, parameters and loop histories; quad and hexa',
     'Tests compare a few end to end numbers; a swapped argument or a wrong loop often gives the same number at rest.',
     [CO, POSC, VELC, TRJC], [('cascade', CO + ' compute_position_control, compute_velocity_control, compute_trajectory_control, compute_acceleration_control, compute_acro_control'), ('loops', POSC + ', ' + VELC + ', ' + TRJC)],
     'Each stage is compared with the next stage\'s own contract.')
prop('C18', 'Thrust and rate demands follow from the wanted acceleration and heading',
     'The wanted thrust vector is mass times (acceleration minus gravity); the collective thrust is its part along the body vertical axis, never negative, and when it would be negative both thrust and rates are zero. The rate demand is minus the attitude gain times the attitude error between the present attitude and the one with its vertical axis along the thrust and its nose to the wanted heading.',
     ['inputs', 'configurations'], 'all masses, gravities, gains, attitudes, headings, accelerations (rate law: thrust neither zero nor parallel to the heading)',
     'Tests sample a few attitudes, mostly level, where transposed matrices and wrong cross product orders give the same numbers.',
     [ACRO, CO], [('attitude law', ACRO + ' yaw_angle_to_angular_velocity, acceleration_to_thrust'), ('collective thrust', CO + ' convert_linear_acceleration_to_acro')],
     'sine and cosine are uninterpreted with sin^2+cos^2=1.')
prop('C19', 'Motor speed demands realise the demanded thrust and torque',
     'The torque demand is inertia times the rate loop\'s acceleration plus wanted rates cross inertia times wanted rates, and the motor speed demands are the signed square roots of the inverse allocation applied to thrust and torque. For a quadrotor with upright motors the computed inverse allocation is a true inverse, so the demanded speeds produce exactly the demanded thrust and torque.',
     ['inputs', 'histories', 'configurations'], 'all inertias (full matrices), allocations, rates, thrusts, gains and histories; quad and hexa; round trip for every X frame',
     'Tests use a diagonal inertia and one frame.',
     [INDI], [('rate control', INDI + ' acro_to_motor_angular_velocity, compute_quadrotor_mixer_matrix_inverse, sqrt_keep_sign')],
     'Matrix inversion code of the linear algebra library is verified in place.')
prop('C20', 'The inertial sensor reports true motion plus bias plus fresh noise',
     'A measurement is the true rate and specific force turned into the sensor frame plus the present bias plus white noise of the configured variance; biases drift by a random walk scaled with the square root of the elapsed time, twelve fresh variates per measurement. Without positive elapsed time nothing changes, and a reset zeroes bias and measurement and keeps the configuration.',
     ['inputs', 'histories', 'configurations'], 'all mounting attitudes, variances, biases, motions, elapsed times and histories',
     'Tests cannot predict random values and use an unrotated sensor.',
     [IMU], [('measurement', IMU + ' update, process_bias, process_measurement'), ('construction', IMU + ' IMU, set_bias_standard_normal_distribution')],
     'Variates are uninterpreted values; their order of use is part of the contract.')
prop('C21', 'Inertial odometry filters and integrates every measurement',
     'An update low pass filters rate and acceleration with the configured weight, turns the filtered acceleration into the world frame with the attitude before the update, and integrates attitude (always a unit quaternion), velocity and, from the new velocity, position over the elapsed time. The estimate starts, and restarts after a reset, at zero position and velocity, the initial attitude and an empty filter; setting the initial attitude changes only the attitude.',
     ['inputs', 'histories', 'configurations'], 'all filter weights, measurements, attitudes, elapsed times and histories',
     'Tests run one straight motion with level attitude and mostly without filtering.',
     [ODO], [('odometry update', ODO + ' update, filter_measurement, integrate_measurement'), ('reset', ODO + ' reset, set_initial_orientation')],
     'Filter memory observed through later updates.')
prop('C22', 'Motors get the selected controller\'s output, and nothing when disarmed',
     'While disarmed the motor commands are zero and a controller update changes nothing at all. While armed, an update sends to the motors exactly what the controller of the selected mode computes from the true state and the present references (motor mode: the motor references themselves), only that controller\'s memory advances, and the vehicle then follows those commands.',
     ['inputs', 'histories', 'configurations'], 'all modes, simulator histories, states, references and elapsed times',
     'Tests fly a few modes from rest; a mode using a stale reference or the wrong state component still flies.',
     [SIM], [('mode dispatch', SIM + ' update_controller'), ('vehicle update', SIM + ' update_dynamics')],
     'Every simulator history: all stored bytes arbitrary. Yaw in angle mode; rate mode is C26.')
prop('C23', 'Switching modes holds the vehicle; each reference setter sets its own',
     'Changing the control or yaw mode makes the present position and heading the references and zeroes velocity, acceleration, thrust and rate references; selecting the mode already in force changes nothing. Each reference setter changes exactly its own references, and arming or disarming, modes and references never disturb vehicle, sensors or controller memory.',
     ['inputs', 'histories', 'configurations'], 'all pairs of modes, all simulator histories, states and reference values',
     'Tests switch between a few modes in one state.',
     [SIM], [('mode switch', SIM + ' set_control_mode'), ('references', SIM + ' set_reference_*'), ('arming', SIM + ' arm, disarm')],
     'Quad, hexa and float.')
prop('C24', 'With the floor enabled the vehicle is never below it',
     'With floor collision enabled, after every update the vehicle is at or above the floor height; when the free motion would end below it, the vehicle ends on the floor with zero velocities and accelerations, its horizontal position, attitude and motors as in the free motion, sensor zeroed and odometry restarted at the true attitude. When it does not hit the floor, nothing differs from the free motion, and only a vehicle starting below the floor is carried against its weight.',
     ['inputs', 'histories', 'configurations'], 'all floor heights, states, commands, histories; never below the floor: any positive duration; comparison with the free motion: steps up to 10 ms',
     'Tests drop one vehicle on one floor.',
     [SIM], [('floor', SIM + ' update_dynamics, enable_floor_collision')],
     'Process noise rests for the update following a contact.')
prop('C25', 'Simulator parts get the right inputs and do not disturb each other',
     'The sensor is fed with the body frame force per mass and the body rates of the true state, the odometry with the sensor\'s reading, and updating one part leaves all others, the modes and the references untouched. Building a simulator or replacing the parameters of one part gives each part exactly its own parameters, a new simulator is disarmed, in motor speed and yaw angle mode, without floor, external force or references, and reading hands out what is stored and changes nothing.',
     ['inputs', 'histories', 'configurations'], 'all simulator histories, states, parameters and elapsed times',
     'Tests look at the part being exercised and not at all the others.',
     [SIM], [('feeding', SIM + ' update_imu, update_inertial_odometry'), ('parameters', SIM + ' set_*_params, Simulator')],
     'Whole parts compared byte for byte.')
prop('C26', 'Yaw rate mode leads the heading by rate over yaw gain',
     'In yaw rate mode every controller update acts exactly as angle mode would with the heading reference set to the present heading plus the rate reference divided by the yaw gain, and reports that heading reference; with a zero yaw gain there is no lead. Angle mode never changes the heading reference.',
     ['inputs', 'histories', 'configurations'], 'all attitudes, rates, non zero gains, modes and simulator histories',
     'Tests look at one slow turn from one heading.',
     [SIM, CO], [('yaw rate', CO + ' yaw_rate_to_angle'), ('use', SIM + ' update_controller')],
     'Quad and hexa.')
prop('C27', 'Noise is reproducible from the seed given',
     'Process noise and sensor noise are exactly the stream of standard variates of the default random engine started from the seed given to the vehicle or the sensor, at construction or by reseeding, independent of anything else. Two equal simulators updated alike stay equal, noise included.',
     ['inputs', 'histories', 'configurations'], 'all seeds, noise parameters and elapsed times; all simulator histories for the second sentence',
     'Tests never compare two runs or two seeds.',
     [MO, DY, IMU], [('seeding', MO + ' Model; ' + DY + ' Dynamics; ' + IMU + ' IMU, set_random_seed')],
     'The standard library distribution is an uninterpreted function of engine and saved state.')
prop('C28', 'State and odometry logs list every quantity in order',
     'Writing a state or an odometry estimate to a stream gives each quantity once, in the documented order and separated by commas (or with its label): position, roll, pitch, yaw, velocity, rates, accelerations, force, torque, motor speeds, motor accelerations. The angles are those of the attitude whatever the quaternion\'s length, with pitch limited to a right angle at the poles.',
     ['inputs', 'configurations'], 'all states, odometry histories and quaternions; quad and hexa',
     'Tests print a zero state, where every order looks alike.',
     [ST, ODO], [('logs', ST + ' operator<<, print_kinematics, print_dynamics, print_actuators, quaternion_to_Euler'), ('odometry log', ODO + ' operator<<, print_state')],
     'Stream output is a ghost trace; formatting of numbers is the standard library\'s.')
