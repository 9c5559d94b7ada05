prop("R01", "Body-frame vectors are rotated rigidly into north/east/down and back",
     "For every roll, pitch and heading, a vector measured in the vehicle frame is converted to north/east/down by the yaw-pitch-roll rotation of those angles, so lengths and angles between vectors are preserved. Converting to north/east/down and back, in either order, returns the original vector.",
     ["inputs"], "all real roll, pitch, yaw (degrees) and all 3-vectors",
     "tests rotate no vector with three non-zero angles; the identity is a trigonometric one over six reals",
     [TOOLS + "body_to_inertial.py", TOOLS + "inertial_to_body.py"],
     [("explicit product of three axis rotations", TOOLS + "body_to_inertial.py"), ("its transpose", TOOLS + "inertial_to_body.py")],
     "proof", "unbounded proof by exact rational-function normalisation modulo cos^2+sin^2=1; trusts real arithmetic for floats")

prop("R02", "Interpolated values lie on the chord of the two bracketing measurements",
     "Whenever a depth, altitude, velocity, attitude, position or covariance is wanted between two timestamped measurements, the result is the straight-line value at the requested time, exact at the end points and never outside the two measurements. Headings are interpolated the short way around north and stay within 0 to 360 degrees. A value is attached to the requested time, not to a measurement time.",
     ["inputs"], "all times between the two measurement times, all measurement values, all headings 0..360",
     "tests interpolate a few values in the middle of an interval and never across north with all fields",
     [TOOLS + "interpolate.py"], [("linear interpolation with wrap-around for headings", TOOLS + "interpolate.py")],
     "proof", "two-point interpolators and the list searches (loop invariants, lists of any length) are proved; the altitude search with its early exit is also run for stated lengths (bounded)")

prop("R03", "Camera and sensor poses are the vehicle pose plus the rotated lever arm",
     "The position reported for a camera or other payload at its trigger time is the vehicle position interpolated between the two track points that bracket the trigger, plus that payload's own mounting offset rotated by the interpolated attitude; altitude decreases by the vertical arm, and latitude and longitude are those of the payload. Attitude is the interpolated vehicle attitude, and triggers outside the track are discarded rather than extrapolated.",
     ["inputs", "configurations"], "all tracks, trigger times, attitudes and mounting offsets",
     "no test exercises payload interpolation with a rotated offset",
     [TOOLS + "interpolate.py", "src/auv_nav/sensors.py"], [("bracketing search and lever arm", TOOLS + "interpolate.py"), ("camera built from a synchronised state", "src/auv_nav/sensors.py")],
     "proof", "lever arm, conversions and the bracketing search over tracks and sensor lists of any length proved by loop invariants; the wiring in process() bounded to one packet order with symbolic contents")

prop("R04", "Velocities are corrected for the sensor position by the rotation rate",
     "A velocity measured away from the vehicle centre is corrected by the cross product of the angular rate (given in degrees per second) and the lever arm. Angular rates come from the attitudes immediately before and after the requested one, with heading differences taken the short way around north, at the ends of the record as well as inside it.",
     ["inputs"], "all velocities, rates and offsets; all attitude records and positions in them",
     "no test covers a lever arm or heading wrap",
     [TOOLS + "dvl_level_arm.py"], [("cross product and central difference", TOOLS + "dvl_level_arm.py")],
     "proof", "cross product proved; angular rates bounded to stated record lengths with symbolic contents")

prop("R05", "The dead-reckoned track is the trapezoidal integral of the rotated velocities",
     "The exported dead-reckoned track has one state per attitude measurement inside the velocity record and the requested time span; each carries that attitude, the interpolated lever-arm-corrected body velocity, its north/east/down rotation, and the depth and altitude at that time. Each position is the previous one plus the mean of both velocities times the elapsed time, moved from the velocity sensor to the vehicle centre by the rotated offset and shifted by the mean difference to the USBL fixes when there are any.",
     ["inputs", "histories"], "all interleavings of attitude, velocity, depth, altitude and USBL records with any contents and timestamps",
     "the only end-to-end test is the EKF one on a single recorded log; it checks no position formula",
     ["src/auv_nav/process.py", LOC + "dead_reckoning.py", LOC + "usbl_offset.py"],
     [("time-ordered merge of sensor streams, integration and offset", "src/auv_nav/process.py"), ("trapezoidal step", LOC + "dead_reckoning.py"), ("mean offset to USBL", LOC + "usbl_offset.py")],
     "other", "integration step proved; the whole of process() is executed symbolically for fixed packet orders with symbolic times and contents (bounded), and sampled on missions of up to 60 packets of each kind")

prop("R06", "USBL outlier filters keep exactly the fixes inside the stated envelopes",
     "A USBL fix survives exactly when its depth agrees with the vehicle depth within the configured number of standard deviations and when the travel between it and each of its two preceding and two following fixes is possible within position uncertainty and maximum speed. Fixes outside the requested period are dropped, survivors keep their order, and no fix is altered or duplicated.",
     ["inputs", "configurations"], "all USBL and depth records, thresholds, speeds and filter combinations",
     "no test runs the USBL filter",
     [LOC + "usbl_filter.py"], [("depth and distance envelopes", LOC + "usbl_filter.py")],
     "proof", "both acceptance predicates and the filtering of lists of any length (loop invariants) proved; the same contracts also run for stated lengths (bounded)")

prop("R07", "An accepted filter update is the Kalman update; a rejected one changes nothing",
     "For every state, covariance and measurement, an accepted measurement changes state and covariance by the Kalman gain and the Joseph form built from the innovation covariance, with angle innovations wrapped to half a turn and stored angles wrapped. A measurement is rejected exactly when its Mahalanobis distance reaches the threshold, and then state, covariance and history are unchanged while the rejection is recorded. Negative measurement variances count by magnitude and vanishing ones as a tiny positive value.",
     ["inputs", "histories"], "all states, symmetric covariances, measurements of every type, thresholds",
     "the EKF test runs one recorded mission and compares no update with its definition",
     [LOC + "ekf.py"], [("measurement update", LOC + "ekf.py"), ("gating", LOC + "ekf.py"), ("angle wrapping", LOC + "ekf.py")],
     "proof", "depth, USBL and velocity updates proved for a full symbolic 12x12 covariance; attitude updates and angle wrapping bounded in the number of turns; numpy.linalg.inv is an assumed contract whose argument is checked")

prop("R08", "Filter prediction follows the motion model; smoothing is Rauch-Tung-Striebel",
     "Between measurements the filter advances position by the body velocity (and acceleration term) rotated into north/east/down and attitude by the rotation rates, and its covariance by the exact derivative of that motion model plus process noise times the elapsed time. The smoothed history is the fixed-interval backward recursion over exactly the filtered states, with the last state unchanged and angle differences taken the short way.",
     ["inputs", "histories"], "all states, covariances, process noise and time steps; histories of stated lengths",
     "the EKF test runs one recorded mission and compares neither the Jacobian nor the smoother with a definition",
     [LOC + "ekf.py"], [("transfer function and Jacobian", LOC + "ekf.py"), ("prediction", LOC + "ekf.py"), ("smoothing pass", LOC + "ekf.py")],
     "proof", "transition, Jacobian and covariance prediction proved; smoother bounded to histories of two and three states with full symbolic matrices")

prop("R09", "A reading enters the filter with its own value, units, lever arm and noise",
     "Each depth, USBL, velocity and attitude reading becomes a filter measurement at its own time, touching only the state entries that sensor observes: depth and position are moved to the velocity sensor by the rotated offset, and angles are in radians. The variance is the square of the sensor's standard deviation when that is known and otherwise of the configured offset plus factor times magnitude, per axis where configured.",
     ["inputs", "configurations"], "all readings, attitudes, offsets and noise configurations",
     "no test constructs a filter measurement",
     [LOC + "ekf.py"], [("measurement construction", LOC + "ekf.py")],
     "proof", "unbounded proof for all real readings and parameters")

prop("R10", "The filter uses every reading exactly once, in time order, over the track",
     "The filter starts from the first dead-reckoned state moved to the velocity sensor and visits, in time order, every later reading time and every requested camera or payload time up to the end of the track. At each it first predicts over the exact elapsed time and then applies exactly the readings of that time, attitude first, each once and with the lever arm rotated by the current attitude. The exported tracks, cameras and payloads use that run's smoothed or filtered states as configured, each with its own mounting offset.",
     ["inputs", "histories", "configurations"], "all interleavings and ties of attitude, USBL, depth and velocity readings and requested times; all start and end times; all offsets",
     "the EKF test runs one recorded mission; ties, early starts and late ends are not in it",
     [LOC + "ekf.py", "src/auv_nav/process.py"], [("event loop of ExtendedKalmanFilter.run", LOC + "ekf.py"), ("set-up and use of the filter", "src/auv_nav/process.py")],
     "proof", "event loop proved by a loop invariant for any number of readings of every sensor and of requested times; the set-up in process() bounded to stated packet orders with symbolic contents")

prop("R11", "Exported filter states carry the right units, uncertainties and positions",
     "A filter state is exported with its own time, metres, degrees and the square roots of its own variances (never of a negative one), and converts back without loss. The exported track is that state moved from the velocity sensor to the vehicle centre, with the latitude, longitude and altitude of that place and time; a camera pose is produced exactly for the images whose trigger time has a state.",
     ["inputs"], "all states, covariances, offsets, tracks and trigger times",
     "no test compares an exported state with the filter state",
     [LOC + "ekf.py"], [("state conversion", LOC + "ekf.py"), ("save_ekf_to_list and update_camera_list", LOC + "ekf.py")],
     "proof", "unit conversions and the export of state lists of any length (loop invariants) proved; wiring in process() bounded to one packet order")

prop("R16", "Output files do not depend on how the writer threads are scheduled",
     "Whatever is handed to a thread that writes a csv, sidescan or SLAM++ file is not modified from the moment the thread is started until the program has waited for it. Every interleaving of the writers with the rest of the processing therefore produces the same files.",
     ["schedules", "configurations"], "all schedules of the writer threads; dead reckoning, particle filter, EKF and SLAM++ outputs",
     "a test sees one schedule and the writers are usually faster than the code that follows",
     ["src/auv_nav/process.py"], [("threads started by process()", "src/auv_nav/process.py")],
     "other", "frame condition over the whole of process() executed symbolically for fixed packet orders")

prop("R12", "A reading survives the standard navigation format unchanged",
     "Every complete velocity, attitude, depth, altitude, USBL, tide or image reading written to the standard navigation format reads back with the same value in every field, the same time, and its own standard deviations, or those of the configured linear model (offset plus factor times magnitude, per axis where configured), which are never negative. It is written once; a reading missing a value or its time is not written at all.",
     ["inputs", "configurations"], "all values, times, standard deviations and linear models of every reading type",
     "no test reads back what was exported",
     ["src/auv_nav/sensors.py"], [("_to_json / from_json of every reading class", "src/auv_nav/sensors.py"), ("OutputFormat.export", "src/auv_nav/sensors.py")],
     "proof", "unbounded proof over all field values; text encoding of JSON is assumed faithful")

prop("R13", "Exported tables hold each value under the column naming it, and read back",
     "Every row of an exported csv has one cell per column and, under each column name, the value of that quantity of that record; tracks and camera poses (with covariance) read back as they were written, for exactly the requested range of images. A file has a header and one row per record in order, replacing any earlier file. Side-scan and SLAM++ files hold the same poses, the latter with the upper triangle of the information matrix in x, y, z, yaw, pitch, roll order.",
     ["inputs", "histories"], "all record contents; record counts of at least two",
     "no test reads an exported table back",
     ["src/auv_nav/sensors.py", TOOLS + "csv_tools.py"], [("to_csv_row, headers and from_df", "src/auv_nav/sensors.py"), ("write_csv, load_states, write_sidescan_csv, spp_csv", TOOLS + "csv_tools.py")],
     "proof", "row contents proved for all values; camera, track and side-scan files proved for any number of records (loop invariant over a ghost file); SLAM++ and USBL files and load_states bounded with symbolic contents, sampled up to 120 records; number formatting modelled as a faithful text token")

prop("R14", "The standard navigation record holds every packet once and in time order",
     "Parsing reads each configured sensor with the reader of its own format and writes one record with the mission origin and every packet of every stream, unchanged and exactly once, in numerical time order; packets of equal time keep their order. Merging dives keeps every packet of every dive in one such record with a single origin and image paths prefixed by their dive, and refuses dives with different origins.",
     ["inputs", "histories"], "all packet contents and times, ties included; all sets of streams",
     "no test parses more than one stream",
     ["src/auv_nav/parsers/parse_interlacer.py", "src/auv_nav/parse.py"], [("parse_interlacer", "src/auv_nav/parsers/parse_interlacer.py"), ("merge_json_files and the packet list of parse_single", "src/auv_nav/parse.py")],
     "other", "sorting of records of any length proved from the contract of sorted(); reading, merging and writing bounded to the stated numbers of packets with symbolic times and contents")

prop("R27", "Depth and USBL depth are referred to the datum by the tide at their time",
     "When tide data is configured, every depth and USBL reading taken after the first and not after the last tide record is stored minus the tide height interpolated at its own time; all other readings and all other sensors are stored unchanged. Tide files yield one record per line, at the line's date and time moved from the configured time zone to UTC, with its height and a standard deviation that is not negative.",
     ["inputs", "histories", "configurations"], "all tide curves, reading times and depths",
     "no test applies a tidal correction",
     ["src/auv_nav/parse.py", "src/auv_nav/parsers/parse_NOC_polpred.py", "src/auv_nav/parsers/parse_tide_CTI.py"], [("tidal correction in parse_single", "src/auv_nav/parse.py"), ("tide files", "src/auv_nav/parsers/parse_tide_CTI.py")],
     "proof", "the correction of any number of readings by any number of tide records is proved by loop invariants; tide files bounded to two lines")

prop("R26", "Raw sensor readings become metres, degrees, UTC and non-negative std",
     "Every supported raw record (PHINS, RDI, ae2000, Autosub, ALR, koyo ROV, ROS topics, GAPS, USBL dumps, NMEA fixes) yields the reading its format describes: velocities in m/s forward, starboard, down and turned by the mounting heading, attitude in degrees, depth positive down in metres, latitude and longitude signed by hemisphere with northings and eastings of the same point, standard deviations that are the square root of the reported variance or the configured linear model and never negative, and the record's own time; records without lock, echo or fix yield no reading.",
     ["inputs", "configurations"], "all field values the formats can carry",
     "the parser tests compare one archived log per format at most and pass with sign, unit or axis errors elsewhere",
     ["src/auv_nav/sensors.py", "src/auv_nav/parsers"], [("from_* methods", "src/auv_nav/sensors.py"), ("parse_rdi", "src/auv_nav/parsers/parse_rdi.py"), ("parse_gaps", "src/auv_nav/parsers/parse_gaps.py"), ("parse_usbl_dump", "src/auv_nav/parsers/parse_usbl_dump.py")],
     "proof", "sensor conversions proved for all field values; log-file parsers bounded to the stated numbers of records with symbolic values")

prop("R15", "Every stored time is UTC: clock reading minus time zone plus time offset",
     "For every supported log and image-name layout and every calendar date, the stored epoch is the clock reading's UTC epoch minus the configured time zone plus the configured time offset, fractions of a second included, and is the same whatever the time zone of the computer the software runs on; unknown zone names stop the run.",
     ["inputs", "configurations"], "all dates and clock readings (digit by digit), all zones and offsets, every time zone of the computer",
     "tests convert two or three fixed names on a UTC machine",
     ["src/auv_nav/tools/time_conversions.py", "src/oplab/filename_to_date.py", "src/oplab/mission.py", "src/auv_nav/parsers", "src/auv_nav/sensors.py"], [("date_time_to_epoch", "src/auv_nav/tools/time_conversions.py"), ("FilenameToDate", "src/oplab/filename_to_date.py"), ("TimeZoneEntry", "src/oplab/mission.py")],
     "proof", "proved over symbolic digits, dates, zones and a free computer time zone; timestamp files and koyo logs bounded to two rows")

CI = "src/correct_images/"
prop("R17", "Attenuation parameters are fitted per pixel to that pixel's own observations",
     "For every pixel and channel the light attenuation curve (intensity = a*exp(b*distance)+c) is fitted to the intensities and distances observed at that pixel and channel only, pairing each intensity with the distance of the same image and ignoring missing values; the gain restores the intensity seen at the target distance, so a scene of constant reflectance is corrected to the same value at every distance. Distance bins use exactly the images inside the bin.",
     ["inputs", "configurations"], "all images, distances, parameters; grey and colour images; every smoothing method",
     "tests cover helper functions only; none compares a corrected pixel with the model",
     [CI + "corrections/attenuation.py", CI + "tools/curve_fitting.py", CI + "corrector.py"],
     [("attenuation_correct, gains and parameters", CI + "corrections/attenuation.py"), ("curve_fitting", CI + "tools/curve_fitting.py"), ("distance bins", CI + "corrector.py")],
     "proof", "correction formula, gains and constant scene proved at every pixel of images of any size; pairing of intensities and distances and smoothing bounded to the stated image sizes; the curve fit by its contract and sampled")

prop("R18", "A corrected image is the configured correction of that same image",
     "Each output image is obtained from the image of the same index by the configured steps in their order: dark pixels and attenuation with that image's own distances, then brightness and contrast normalisation with the statistics of each pixel, debayering with the camera's pattern, undistortion with that camera's calibration, gamma and clipping to the output depth. Channels are never exchanged and every pixel value is the stated formula of the input pixel.",
     ["inputs", "configurations"], "all image contents, statistics, calibrations and combinations of correction method, image type and distance metric",
     "tests run single helpers on constant images",
     [CI + "corrector.py", CI + "corrections", CI + "loaders"], [("process_image", CI + "corrector.py"), ("pixel formulas", CI + "corrections"), ("image loaders", CI + "loaders")],
     "proof", "normalisation, gamma and manual balance proved for images of any size; the whole chain bounded to two-pixel images with symbolic contents for every configuration; file codecs sampled")

prop("R19", "Image statistics are the mean and standard deviation of the same pixels",
     "The running, stacked, median and trimmed statistics of a set of images are, for every pixel and channel, the mean and the standard deviation (or median, or trimmed mean) of the values of that pixel and channel over all the images, however many there are and in whichever order they are read, and the standard deviation used to normalise is never zero. Where zeroes stand for missing values (depth maps), they count neither in the mean nor in the deviation of their pixel; the clipping of the live statistics replaces pixels brighter than the clipping level by the mean so far.",
     ["inputs", "histories"], "all image contents and numbers of images",
     "tests check one constant stack",
     [CI + "tools/numerical.py", CI + "tools/memmap.py"], [("running and stacked statistics", CI + "tools/numerical.py"), ("image stacks", CI + "tools/memmap.py")],
     "proof", "running mean and deviation proved for any number of images and stacks of any size (loop invariant); trimmed, median and missing-value statistics bounded to the stated numbers of images")

prop("R20", "Rescaled images have the ground resolution of the target at their own altitude",
     "Rescaling changes each image by the ratio of its own footprint (altitude and field of view of its camera) to that of the target altitude or pixel size, so every pixel of the result covers the same ground distance; keeping the size crops or pads about the image centre. Every image listed is rescaled with the altitude of its own row and no other.",
     ["inputs", "configurations"], "all altitudes, fields of view, targets and image sizes",
     "no test rescales an image",
     [CI + "corrections/rescale.py"], [("rescale and rescale_images", CI + "corrections/rescale.py")],
     "proof", "pixel sizes proved for all real altitudes, angles and sizes; image content sampled; PIL resize and crop are assumed contracts")

prop("R24", "Exactly the images selected by the user are corrected, each with its own row",
     "An image is used when it exists, is in the user's list (if there is one), has an altitude in the navigation table and that altitude lies strictly inside the window configured for the current mode; it is processed with the altitude, depth map and navigation of its own row, and is listed once in the output table. Parsing several dives uses the images of all of them. Existing results are never overwritten unless forced, and no input file is changed.",
     ["inputs", "configurations", "histories"], "all navigation tables, altitude windows, user lists, missing files, and sets of dives",
     "no test selects images by altitude or list",
     [CI + "corrector.py", CI + "tools/file_handlers.py"], [("get_imagelist, parse and process_correction", CI + "corrector.py"), ("trim_csv_files", CI + "tools/file_handlers.py")],
     "other", "selection executed symbolically for tables of three images with symbolic altitudes and windows; output tables sampled")

AC = "src/auv_cal/"
prop("R21", "Laser planes come from simultaneous detections of one laser, in vehicle axes",
     "A laser plane file describes the plane, in vehicle axes (forward, starboard, down), of points triangulated from detections of the same laser in the same column of two images taken together (equal name, or within 50 ms and nearest), each point being the one whose projections are the detections. Only points inside the configured depth range enter, at most the configured number per depth bin; every uncertainty plane passes through three points of that laser; plane coefficients, distances, angles and ray intersections all describe one and the same plane.",
     ["inputs", "configurations", "histories"], "all detections, camera matrices, image names and point clouds; one or two lasers; first and repeated runs",
     "no test runs the laser calibration",
     [AC + "laser_calibrator.py", AC + "plane_fitting.py", "src/oplab/camera_models.py"], [("synchronisation, triangulation, stratification and plane output", AC + "laser_calibrator.py"), ("Plane", AC + "plane_fitting.py"), ("projection and triangulation", "src/oplab/camera_models.py")],
     "proof", "plane geometry, axes, projection and triangulation proved for all values (numpy svd by contract); detection, triangulated clouds and strata proved for any number; pairing of image names bounded; least squares and files sampled")

prop("R28", "A camera calibration file is the best calibration of simultaneous views",
     "Camera calibration uses the views found in both cameras at the same time, drops exactly the views whose own error is excessive, and keeps, as a whole (matrices, rectification, error and number of views), the calibration with the smallest error. The file written for a camera or pair reads back with the same values to six decimals under the same camera, uses that camera's own images, and never replaces an existing calibration unless forced.",
     ["inputs", "configurations", "histories"], "all view errors and iteration histories, image names, camera sets and existing files",
     "no test runs a camera calibration",
     [AC + "camera_calibrator.py", AC + "calibration.py", "src/oplab/camera_models.py"], [("choice of views and best calibration", AC + "camera_calibrator.py"), ("files and cameras used", AC + "calibration.py"), ("reading calibration files", "src/oplab/camera_models.py")],
     "other", "choice of views bounded to the stated numbers of views and iterations with symbolic errors and OpenCV by contract; files and pairing sampled")

prop("R25", "Image records carry their own files and times; stereo pairs are nearest in time",
     "Each image on disk (or each row of the camera's time file) becomes one record holding that image's own path, below the dive folder, and its own trigger time. A stereo record joins an image of the first camera with the second camera's image closest in time, exactly when both are less than 50 ms apart, and with no other. The result for a dive does not depend on dives parsed earlier. BioCam clock correction gives each image the affine image of its own camera clock, never later than the recorded time, and changes nothing else.",
     ["inputs", "histories"], "all trigger times, all time zones and offsets, any dive parsed before",
     "no test parses images; pairing by time and leftovers of an earlier dive only show for particular times and histories",
     ["src/auv_nav/parsers/parse_acfr_images.py", "src/auv_nav/parsers/parse_biocam_images.py", "src/auv_nav/parsers/parse_ntnu_stereo.py", "src/auv_nav/parsers/parse_seaxerocks_images.py", "src/auv_nav/parsers/parse_voyis.py", "src/auv_nav/parsers/parse_stereo_gopro.py", "src/oplab/camera_system.py"],
     [("nearest partner", "src/auv_nav/parsers/parse_acfr_images.py"), ("clock correction", "src/auv_nav/parsers/parse_biocam_images.py"), ("one record per row", "src/auv_nav/parsers/parse_seaxerocks_images.py"), ("own format of each camera", "src/auv_nav/parsers/parse_voyis.py"), ("own images of a camera", "src/oplab/camera_system.py")],
     "other", "symbolic times for stated numbers of images (bounded); file listing of the GoPro and camera.yaml readers sampled on the real code")

prop("R23", "Every sensor gets the settings and mounting offsets written for it",
     "Loading mission.yaml and vehicle.yaml gives each sensor, camera and payload the format, paths, noise, time zone, time offset and frame of its own section, and its frame's own six offsets (legacy files: x, y, z and the heading offset), with documented defaults for what is absent and no effect on any other sensor. A mission whose sensor, camera or payload has no frame in the vehicle file is refused. A written configuration loads as the same configuration and leaves the original file unchanged.",
     ["inputs", "configurations"], "all setting values; all combinations of sections, frames, up to three cameras and two payloads",
     "tests load three example files whose offsets are mostly zero; a value landing on a neighbouring sensor or a lost field does not show there",
     ["src/oplab/mission.py", "src/oplab/vehicle.py"],
     [("section loading and consistency with vehicle.yaml", "src/oplab/mission.py"), ("offsets per frame", "src/oplab/vehicle.py")],
     "other", "loading is executed symbolically for every enumerated layout with all numbers symbolic; yaml itself is an assumed contract in proofs and real in replays")

prop("R22", "Raw inputs and finished results are left alone unless the user forces it",
     "The raw, processed and configuration places of a dataset differ only in that one folder name, and asking for a place creates nothing; a path outside a dataset is refused. Parsing, processing, converting and calibrating never change the raw data, write results only below the processed folder (a missing configuration is created from its default), and never replace or delete finished results without the force flag; a dataset without results is processed. Removing a folder never deletes anything outside it.",
     ["inputs", "histories", "configurations"], "all enumerated dataset layouts, states of earlier results and force flags",
     "tests process into fresh folders with the force flag; overwriting only shows when results of an earlier run are present",
     ["src/oplab/folder_structure.py", "src/auv_nav/parse.py", "src/auv_nav/process.py", "src/auv_nav/convert.py", "src/auv_cal/calibration.py"],
     [("places of a dataset", "src/oplab/folder_structure.py"), ("already parsed", "src/auv_nav/parse.py"), ("already processed", "src/auv_nav/process.py"), ("already converted", "src/auv_nav/convert.py"), ("already calibrated", "src/auv_cal/calibration.py")],
     "other", "exhaustive enumeration of the stated layouts and states against the real code with snapshots of the file tree; numerical work replaced by stand-ins that write a marker")

PFS = LOC + "pf.py"
prop("R30", "Particles follow the dead reckoning and are weighed by the USBL fixes",
     "For every noise draw, each particle of the particle filter moves, from the first dead-reckoned state on, by its (noisy) velocity rotated by its (noisy) attitude over the time since the last step, with noise of the configured size per quantity, and keeps its own pose and time of every step. Every state of the track, and every USBL fix from its start on, is used exactly once in time order. A fix multiplies each weight by the Gaussian of the distance; weights add up to one; resampling only copies particles, in proportion to weight, and leaves equal weights. The exported track is the likeliest particle's, at the sensor and moved to the vehicle centre.",
     ["inputs", "schedules", "configurations"], "all noise draws, states, fixes, weights; dead-reckoning and USBL records of any length in any time order with ties",
     "no test runs the particle filter, and a test could only sample its random draws",
     [PFS, "src/auv_nav/process.py"], [("movement, observation, weights and resampling", PFS), ("schedule of states and fixes", PFS), ("centre track", "src/auv_nav/process.py")],
     "proof", "one step of a particle, distance and density, and the schedule for records of any length are proved (draws are arbitrary reals); weighing and resampling bounded to the stated numbers of particles, start of the filter to the stated lengths, both with symbolic contents")

prop("R29", "Poses converted from and to other navigation formats stay the same poses",
     "The pose written for an image or the vehicle by a format conversion (HyBIS, KOYO20 ROV and ACFR to the pipeline's tables; the pipeline's tables to ACFR files) is the pose of the source: readings on either side of the image's own time, interpolated (headings the short way round), missing altitudes and depths filled from their neighbours, moved by the target's own lever arm, with position, depth, attitude and altitude under their own columns, units, axes and origin. ACFR pose files read back as what was written; combined.RAW holds every depth, attitude, USBL fix and image once, with its own time and values, and velocities with the latest altitude and attitude. Images outside the record get no pose.",
     ["inputs", "histories"], "all readings, angles, positions, offsets and image times; records out of order, without fix or with missing values",
     "one reader is tested on an example file without looking at the poses; axis, sign and clock errors only show with general attitudes and times",
     ["src/auv_nav/convert.py", "src/auv_nav/parsers/hybis.py", "src/auv_nav/parsers/koyo20rov.py", "src/auv_nav/parsers/acfr_stereo_pose.py", "src/auv_nav/parsers/acfr_vehicle_pose.py", "src/auv_nav/parsers/acfr_combined_raw.py", "src/auv_nav/sensors.py"],
     [("HyBIS", "src/auv_nav/parsers/hybis.py"), ("KOYO20 ROV", "src/auv_nav/parsers/koyo20rov.py"), ("ACFR pose files", "src/auv_nav/parsers/acfr_stereo_pose.py"), ("combined.RAW", "src/auv_nav/parsers/acfr_combined_raw.py"), ("whole dives", "src/auv_nav/convert.py")],
     "other", "position and time text of HyBIS proved for all values, ACFR pose files for any number of poses; other whole conversions with symbolic values bounded to the stated numbers of records and images; geodesy an assumed contract")
