#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=x, where=', '.join(files)) for x in mechanism],
                               state=[dict(name=n, meaning=m) for n, m in state],
                               observe_at=list(observe))))
B='src/bmi_lgar.cxx'; L='src/lgar.cxx'; LL='src/linked_list.cxx'; S='src/soil_funcs.cxx'; H='include/bmi_lgar.hxx'; A='include/all.hxx'

p('C01','Surface water is split without gain or loss',
  'In every model sub-step the water available at the surface (rain of the sub-step plus water ponded before it) equals the infiltration, the surface runoff and the water left ponded that the sub-step accounts for, on every path the sub-step can take (leftovers below 1e-12 cm may be dropped as rounding). Surface runoff is only produced from water beyond the configured maximum ponding depth and is never negative, and the water left ponded never exceeds that maximum.',
  ['inputs','histories','configurations'],'every rain rate, ponded depth, maximum ponded depth, infiltration capacity, sub-step length and wetting-front state, on every branch of the surface partition',
  'The tests run five fixed configurations; ponding limits other than their own, the tie between ponding and its maximum, and the no-rain drain-down branches are sampled by at most a few steps.',
  [B,L],['sub-stepping loop of the BMI update','infiltration capacity and water insertion','creation of a surficial front'],
  [('ponded depth','water on the surface'),('infiltrated volume','water entering the soil in the sub-step'),('runoff','water leaving over the surface')],['BMI outputs infiltration and surface_runoff','mass balance record'])
p('C02','Sub-step water balance is complete and an imbalance stops the run',
  'In every sub-step the balance residual is exactly: soil water before, plus rain, plus water ponded before, minus runoff, minus actual evapotranspiration, minus water left ponded, minus percolation through the bottom, minus soil water after, with soil water being the column integral of the wetting fronts. If its magnitude exceeds 1.0e-4 cm the run stops abnormally, whatever the verbosity, and the residual of the last sub-step is what the mass_balance output reports in metres.',
  ['inputs','histories'],'every sub-step of every run and every verbosity level',
  'A balance check that silently omits a term or fails to stop only shows when a balance error occurs; in the test runs none does.',
  [B,L],['local mass balance in the update loop','column water integral'],[('local mass balance','residual of one sub-step')],['abnormal termination','BMI output mass_balance'])
p('C03','Step totals, cumulative totals and BMI outputs agree',
  'After every update each water-flux output (precipitation, potential and actual evapotranspiration, infiltration, surface runoff, percolation, groundwater recharge, routed runoff, discharge) equals, in metres, the sum of that quantity over the sub-steps of the update, each sub-step counted exactly once; soil_storage is the soil water at the end of the update. The cumulative record grows by exactly the same amounts, water ponded and soil water in it are the end-of-update values, and the end-of-run global balance combines initial water, rain, calibration change, runoff, evapotranspiration, ponding, percolation and final water with the right signs, next to the single totals and the water left in the routing queue. After initialisation the cumulative record is zero and the initial water is the water of the initial column.',
  ['histories','inputs','configurations'],'every sequence of updates with any number of sub-steps per update',
  'Tests compare a few output columns of five runs; a flux dropped or double counted on one branch, or in the cumulative record only, leaves those columns unchanged.',
  [B,L],['update: accumulation of sub-step fluxes','update: cumulative record','conversion of the record into BMI outputs','end-of-run global balance'],
  [('mass balance record','per-update and cumulative water volumes in cm'),('converted outputs','the same volumes in m')],['BMI scalar outputs','global mass balance report'])
p('C04','BMI metadata of every variable is mutually consistent',
  'For every advertised input, output and calibratable variable name: it has a valid grid; its type, item size and byte count agree with each other and with the grid size; the memory behind its value pointer is large enough and of that element type; inputs and outputs have a location; and the declared units are the units of the value. The advertised counts equal the number of advertised names, the names are distinct, every grid in use has rank 1 and a size, and a grid shape query writes exactly one entry, equal to the grid size.',
  ['inputs','configurations'],'every variable name, grid id and model configuration',
  'The unit test checks one configuration and does not relate the storage behind a pointer, the grid size and the byte count to each other.',
  [B,H],['variable/grid lookup functions of the BMI class','constructor name tables','allocation of variable storage'],[],['GetVarGrid/Type/Itemsize/Nbytes/Units/Location, GetGridSize/Rank/Shape'])
p('C05','Each BMI name reads and writes exactly its own quantity',
  'Every BMI variable name designates the one model quantity it is named after and no two names share storage; getting a value copies exactly its bytes to the destination, setting it copies exactly its bytes into the model, the at-indices variants touch exactly the requested items, and a name the model does not know raises an exception without touching anything. Setting a value then getting it back returns the value set.',
  ['inputs','histories'],'every variable name (known or not), index list and value',
  'The unit test reads most names after one update of one configuration; swapped, shared or partially copied storage with coincidentally equal values passes.',
  [B],['GetValuePtr dispatch','Get/SetValue and their at-indices variants'],[],['GetValue*, SetValue*'])
p('C06','Queries never change the model',
  'No BMI query (metadata, time, grid, value reads, names, counts) changes any model or BMI state or any global, and a query gives the same answer when repeated; a value write changes only the variable written.',
  ['histories','inputs'],'every query function, every argument, every model state',
  'Tests call queries once in a fixed order; a query with a side effect that matters on a later update is not observed.',
  [B],['all Get* functions of the BMI class','SetValue and SetValueAtIndices'],[],['BMI query results','subsequent updates'])
p('C07','Verbosity never influences results',
  'The verbosity setting only decides what diagnostic text is printed: no model state, output value, control decision that affects state, error detection or termination depends on it.',
  ['configurations','histories'],'every verbosity value, at every point of every run',
  'Tests run with one verbosity each and never compare runs that differ only in verbosity.',
  [B,L,LL,S,'src/aet.cxx','src/bmi_main_lgar.cxx'],['every branch on the verbosity string'],[('verbosity','the one configuration-controlled global')],['all outputs'])
p('C08','Model instances are independent and runs are deterministic',
  'All evolving model state lives in the instance: no mutable static or global storage other than the verbosity setting carries information between instances or updates, and no result depends on wall-clock time, randomness, environment, addresses or memory that was never initialised.',
  ['histories','schedules','configurations'],'any number of instances in one process, interleaved in any order, and any repetition of a run',
  'Tests run one instance per process and compare single runs against tolerances.',
  [B,L,LL,S,'src/aet.cxx','giuh/giuh.c','src/mem_funcs.cxx','src/util_funcs.cxx'],['global and static storage','calls into the runtime library','initialisation of state'],[],['all outputs'])
p('C09','Required configuration entries are enforced',
  'Initialisation from a configuration that lacks a required entry (layer_thickness, initial_psi, timestep, endtime, forcing_resolution, layer_soil_type, wilting_point_psi, field_capacity_psi, giuh_ordinates, soil_params_file, and soil_z when freeze-thaw coupling is on) fails with an error and never returns normally with the corresponding parameter unset. An entry that is present is recognised by its documented key wherever it stands in the file, and an optional entry that is absent leaves its documented default (no ponding, at most 15 soil types, all switches off).',
  ['configurations','inputs'],'every subset and order of configuration entries',
  'Tests use complete configuration files only.',
  [L],['configuration reader','required-entry checks'],[],['Initialize'])
p('C10','Configuration values reach their parameter in the right unit',
  'Each configuration entry sets exactly the model parameter it documents, with the value after the equals sign: durations given in seconds (or without unit), minutes, hours or, for the end time, days are converted exactly and an unknown unit is refused; layer depths accumulate the layer thicknesses in order; GIUH ordinates and the layer, soil-type and temperature-grid lists keep their order and count. Switches are on exactly for the documented spellings and anything else is refused. No entry alters another entry\'s parameter. The initial column holds one front per layer at the configured initial head, with the moisture and conductivity its soil has there.',
  ['configurations'],'every entry, every unit suffix, every list length and every entry order',
  'The five shipped configurations use one spelling and one unit per entry.',
  [L],['configuration reader','initialisation'],[],['Initialize','GetTimeStep, GetEndTime'])
p('C11','Every heap object is freed exactly once and never used afterwards',
  'On every path of initialise/update/finalise each allocation is released exactly once with the matching operation, no pointer to live storage is overwritten without release, and no wetting front or array is accessed after it has been freed.',
  ['histories','configurations'],'every sequence of updates and every front merge, crossing or deletion in them',
  'Tests do not run under a memory checker and a stale read usually still returns the old bytes.',
  [B,L,LL,'src/bmi_main_lgar.cxx'],['linked-list deletion and its callers','state arrays','Finalize'],[],['process memory','outputs'])
p('C12','The wetting-front list stays well formed and consistently numbered',
  'The list operations the model uses (insert at the head or at a position, delete one front, copy, find, count, delete all) keep a finite, acyclic list whose fronts are numbered 1..n from the surface down: inserting adds exactly one front with the requested values, deleting removes exactly the requested front and renumbers those below, copying duplicates every field of every front in order and leaves the source alone, and find/length return the front with that number and the number of fronts.',
  ['histories','inputs'],'every list length, position and sequence of operations',
  'The runs only ever insert and delete at a few positions of short lists.',
  [LL],['listInsertFirst/listInsertFront','listDeleteFront','listCopy','listFindFront','listLength','listDelete'],[],['soil_num_wetting_fronts and the front arrays'])
p('C13','Front merging and boundary crossing conserve soil water',
  'When a front overtakes the one below it, when a front crosses into the next soil layer, and when a front crosses the bottom of the domain, the soil water of the column before the event equals the soil water after it plus the water reported as leaving through the bottom; these events take place as soon as a front lies deeper than the one below it in its layer, the bottom of its layer or the bottom of the column; when a front drier than the one below it is removed, the change of soil water this makes is exactly what is reported to the caller, and the soil storage function is the column integral of the fronts.',
  ['inputs','histories'],'every pair of depths, moistures and layers at which such an event is triggered',
  'Events depend on exact overtaking geometry; runs hit a handful and their mass balance tolerance hides small losses.',
  [L],['merging of fronts','layer-boundary crossing','domain-boundary crossing'],[],['percolation, mass_balance, soil_storage'])
p('C14','Soil hydraulic relations are the van Genuchten-Mualem ones',
  'Effective saturation from head, moisture from head, head from effective saturation, effective saturation from moisture and conductivity from effective saturation are the van Genuchten-Mualem relations for every admissible soil, head-to-saturation and saturation-to-head are inverse to each other, and the parameters derived from the soil file (m, Brooks-Corey lambda and bubbling head, wilting-point moisture, minimum drive) follow the published conversions, and the effective capillary drive is the Brooks-Corey closed form (its limit where that is undefined) or a trapezoidal sum of conductivity over the head interval between the two moistures divided by the saturated conductivity.',
  ['inputs'],'every soil parameter set and every head or moisture in range',
  'Benchmarks sample three soils and few heads; an error in one term is masked by output tolerances.',
  [S],['soil hydraulic functions','effective capillary drive'],[],['all flux outputs'])
p('C15','Each front uses the parameters of its own soil layer',
  'Wherever a hydraulic relation is evaluated for a wetting front or layer, all soil parameters in that evaluation come from one and the same soil, the soil of that layer, in their proper roles, and the conductivity is scaled by the freeze factor of that same layer exactly once. After the fronts have moved, head and conductivity of every front above the deepest whose head exceeds 1 cm are those its moisture has in its own soil; when a front leaves the column through its bottom, head and conductivity of the deepest front are those of the moisture it is left with.',
  ['configurations','inputs'],'every layering, soil assignment and freeze state',
  'Shipped cases have at most three layers and no freezing, so swapped or missing factors of one are invisible.',
  [L,B,'src/aet.cxx'],['callers of the soil hydraulic functions','velocity of fronts','infiltration capacity'],[],['all flux outputs'])
p('C16','Freeze factors are bounded, per layer and refreshed every update',
  'With freeze-thaw coupling every update recomputes the conductivity reduction factor of each layer, before any flux is computed, from the current soil temperature profile only: exp(-10 (273.15 - mean temperature of the cells of the layer)), limited to between 0.05 and 1; the factor is 1 for an entirely unfrozen layer, never below 0.05 nor above 1, and the profile is never read outside its extent. Without coupling all factors are 1.',
  ['inputs','configurations','histories'],'every temperature profile, number of cells and layer geometry',
  'No test enables the coupling with a freezing profile.',
  [L,B],['frozen factor computation','its call in Update','initial value'],[],['flux outputs under freezing'])
p('C17','Calibrated parameters are applied completely and once',
  'When calibration is enabled, the first update applies the seven calibratable values set through the interface, per layer where they are per layer, to the parameters of the matching soil, recomputes every parameter and front moisture derived from them, keeps the front pressure heads, and books the resulting change of soil water in the global balance; later updates do not apply them again, and when calibration is disabled nothing changes.',
  ['configurations','histories','inputs'],'every set of calibrated values, layer count and front configuration',
  'One test sets values for one configuration and inspects only parts of the result.',
  [B,L],['calibration update','its one-time guard'],[],['SetValue on calibratable names, then Update'])
p('C18','An update advances time by exactly one forcing interval',
  'Model time starts at zero. Each update advances the model time by exactly one forcing interval, in sub-steps of equal length which never exceed the forcing interval, and the rain and evaporative demand processed are the rates times that interval; only a standalone run may stop earlier, at the configured end time. The number of sub-steps is the forcing interval divided by the configured step, rounded down, at least one; with adaptive stepping the dividing step is the forcing interval when dry, the minimum step for rain above 10 mm/h or ponding, and twice the minimum step for other rain.',
  ['configurations','inputs','histories'],'every combination of timestep, forcing resolution and adaptive setting',
  'Shipped configurations only use timesteps which divide the forcing interval.',
  [B,L],['sub-stepping in Update'],[('time','model time in s')],['GetCurrentTime, GetTimeStep, precipitation output'])
p('C19','Runoff routing neither creates nor loses water',
  'At every update the routed runoff plus the change of the water held in the routing queue equals the surface runoff times the sum of the ordinates; each unit of runoff leaves according to the ordinates in order, starting in the same update, and never twice.',
  ['inputs','histories','configurations'],'every runoff sequence, number of ordinates and forcing resolution',
  'Tests use a few ordinates, hourly forcing and short runoff pulses.',
  ['giuh/giuh.c',B],['GIUH convolution','queue initialisation'],[('runoff queue','water on its way to the outlet')],['giuh_runoff, total_discharge'])
p('C20','Unsupported soils pass rain through unchanged',
  'When a layer has a soil type outside the supported range, every update reports runoff and discharge equal to the precipitation of the interval, all other fluxes, storage and the balance error zero, and leaves the wetting fronts alone; for supported soils this path is never taken.',
  ['configurations','histories','inputs'],'every soil type assignment and every forcing',
  'One shipped case runs in this mode but only a few columns are compared.',
  [B,L],['pass-through branch of Update','validation of soil types'],[],['BMI scalar outputs'])
p('C21','Failures are loud',
  'Whenever the model detects an unusable input, a missing file, an inconsistent state or an allocation failure it raises an exception or terminates abnormally; it never reports success (normal exit status) or silently continues, and no exception is swallowed on the way out.',
  ['fault_sequences','inputs','configurations'],'every error path of the library and the standalone driver',
  'Tests exercise no error path.',
  [B,L,LL,S,'src/mem_funcs.cxx','src/bmi_main_lgar.cxx','src/aet.cxx'],['calls that end the process or throw','checks after opening files'],[],['exit status, exceptions'])
p('C22','Actual evapotranspiration is between zero and the demand',
  'The actual evapotranspiration demand of a sub-step is the potential rate times the sub-step length times the stress factor 1/(1+(psi/psi50)^3) of the topmost front, psi50 being the head at the moisture halfway between field capacity and wilting point of its soil; the factor is between zero and one and does not increase as the topsoil dries; without potential demand it is zero.',
  ['inputs','histories'],'every potential rate, sub-step length, head and soil',
  'Tests compare totals of five runs.',
  ['src/aet.cxx',B,L],['evapotranspiration function','its use in Update'],[],['actual_evapotranspiration'])
p('C23','Front output arrays mirror the wetting fronts',
  'After every update the advertised number of fronts is the number of fronts in the column, and the i-th entries of the moisture and depth arrays are the moisture and the depth in metres of the i-th front from the surface, for all i; the arrays have exactly that many entries.',
  ['histories','inputs'],'every number of fronts and every creation, merge or crossing in the update',
  'The unit test compares the arrays after one update with three fronts.',
  [B,L],['copy-out at the end of Update and in initialisation','reallocation of the arrays'],[],['soil_num_wetting_fronts, soil_moisture_wetting_fronts, soil_depth_wetting_fronts'])
p('C24','The standalone driver feeds and records every step once, in order',
  'The standalone driver reads the forcing file named in the configuration, feeds the k-th record\'s rain and potential evapotranspiration (second and third column, after one heading line; further columns are ignored) to the k-th update, makes as many updates as there are whole forcing intervals in the end time and refuses to run on fewer records than that. It writes one row per update to data_variables.csv, holding the time of the record and then the BMI outputs named in the heading in the same order, and to data_layers.csv the fronts after each update from the surface down (depth in mm, moisture, layer, number, head in mm).',
  ['inputs','histories'],'every forcing file length, end time and output',
  'The scripts compare a few columns of fixed runs.',
  ['src/bmi_main_lgar.cxx'],['forcing reader','update loop of the driver','output writer'],[],['output files'])
p('C25','Moisture never leaves the physical range of its soil',
  'At the end of every process of an update (initial column, new front, infiltration, movement, merging, crossing of a layer or of the bottom, removal of drier fronts, calibration) every front holds a moisture between the residual and the saturated moisture of the soil of the layer it is in, and none of these processes leaves a negative capillary head, whatever the rain, evapotranspiration, ponded water and profile (water depths not negative; real-number arithmetic).',
  ['inputs','histories'],'every state reachable by any forcing, up to the analysed number of fronts and layers','Runs sample a few trajectories; limits that only bind when a front is emptied, overfilled or crosses into another soil are rarely met.',
  [L,S],['updates of front moisture'],[],['soil_moisture_wetting_fronts'])
p('C26','Infiltration and redistribution agree with the reference physics',
  'For every soil and forcing, infiltration, runoff and moisture profiles agree with the solution of the Richards equation within the accuracy published for the method, and the implicit moisture solution always converges.',
  ['inputs'],'every soil, forcing and layering','Only three benchmark columns are compared.',
  [L],['wetting-front movement','iterative moisture solution'],[],['all outputs'])
p('C28','Fronts move, and water infiltrates, at the rates of the layered Green-Ampt equations',
  'Every update takes velocity, infiltration capacity and new fronts from the published equations. Velocity of a front at depth z inside layer 1: (Ksat (G + h) / z + K) / (theta - theta below); inside a deeper layer: (z / sum(thickness / K at the head of the front) + Ksat (G + h) / z) / (theta - theta below), where G is the capillary drive between the two moistures and h the ponded head; a front at the bottom of its layer does not move. Infiltration of a sub-step is the smaller of the water available and the capacity times the sub-step, the capacity being Ksat (1 + (G + h) / z) in layer 1 and z / sum(thickness / Ksat) + Ksat (G + h) / z below, never more than the free storage of the column. The front that takes up infiltration is the uppermost front lying above another front of its own layer, otherwise the deepest. A new front starts at the dry depth (tau + sqrt(tau^2 + 4 tau G)) / 2, tau = dt Ksat / (theta_e - theta), at most the thickness of layer 1, and takes min(water, depth * (theta_e - theta)).',
  ['inputs','histories','configurations'],'every profile, soil, ponded depth and sub-step',
  'The unit tests compare one profile; wrong terms that vanish there (ponded head, freezing, third layer, storage limit) go unseen.',
  [L,S],['lgar_dzdt_calc','lgar_insert_water','lgar_calc_dry_depth','lgar_create_surficial_front','wetting_front_free_drainage'],[],['infiltration','surface_runoff','soil_depth_wetting_fronts','soil_moisture_wetting_fronts'])
p('C27','Moving the fronts conserves their water',
  'When the fronts advance for a sub-step, each front inside a layer advances by its velocity times the sub-step (in the top layer at most to the bottom of the column), while the lowest front of a layer stays at the layer bottom and takes the head of the front below it and the moisture of its own soil at that head. The new moisture is the one with which the front holds, relative to the front below it and over every layer it spans, the water it held before the sub-step, plus the infiltration and minus the evapotranspiration for the front that carries the demand, limited to the range of its soil; a front created in this sub-step keeps its moisture. The moisture search for deeper fronts works on exactly that water, and a shortfall it cannot close is taken from the evapotranspiration, unless the front saturates. When the demand front saturates, its depth is adjusted until the water of the column is the water before plus infiltration minus evapotranspiration, within 1e-7 cm, or the difference is reported as flux through the bottom. A front that would fall below the residual moisture is deleted and the water it lacks is taken from the evapotranspiration, as is the change made by removing drier fronts. After the movement fronts that have overtaken the next one are merged, fronts beyond their layer cross into the next, fronts are merged again, and the front beyond the column leaves it. The flux reported is that correction plus what crossed the bottom.',
  ['inputs','histories','configurations'],'every profile, velocity, soil and sub-step, up to the analysed number of fronts',
  'The tests compare a few storms with stored results; a term that vanishes for one layer, an unsaturated demand front or a converging search is never exercised.',
  [L],['lgar_move_wetting_fronts','lgar_theta_mass_balance'],[],['soil_moisture_wetting_fronts','soil_depth_wetting_fronts','percolation','actual_evapotranspiration'])
p('C29','No process follows a null pointer or leaves its arrays',
  'For every column of fronts, whatever their number and arrangement over the layers, no process of an update (evapotranspiration, infiltration, new front, movement, merging, crossing of a layer or of the bottom, removal of drier fronts, velocities, storage, routing, output arrays, end-of-run report), no list operation, no calibration and no initialisation follows a null pointer, or reads or writes an array (layer depths, soil types, freeze factors, soil table, calibration values, routing ordinates and queue, front outputs, per-layer work arrays) or a front outside its allocated extent; the arrays allocated when the configuration is read have room for every layer, temperature cell, ordinate and soil type.',
  ['inputs','histories','configurations'],'every arrangement of fronts, number of layers, cells, ordinates and soil types',
  'An access one element too far rarely changes a result, and a missing null test shows only for a column that happens to have no further front; the tests run without memory checking.',
  [L,B,S],['every access to fronts and arrays','allocations of InitFromConfigFile, lgar_initialize, BmiLGAR::Initialize'],[],['all outputs'])
p('C30','Each sub-step runs the processes in order, on its own quantities',
  'In every sub-step of an update: a new front is created exactly when it rains, it did not rain in the sub-step before (also across updates), the topmost front is below the saturation of its soil and no water is ponded; in that case the fronts first move without water and the new front takes its depth and the moisture below it from the fronts after that movement. Otherwise water at the surface, if any, infiltrates and the fronts then move with exactly the water infiltrated. Fronts move exactly once per sub-step, balanced against a copy of the fronts and the soil water immediately before the movement; velocities are computed last, in every sub-step, with the water left on the surface after infiltration as head. Every process gets the length of the sub-step, the rain rate, the front taking up water, the number of layers, the layer depths, soils, freeze factors and capillary-drive options of the model.',
  ['histories','inputs','configurations'],'every sequence of wet and dry sub-steps, ponding, saturation, adaptive or fixed stepping',
  'The tests run fixed-step storms; wrong wiring that coincides there (sub-step length equal to model step, one sub-step per update, no ponding) goes unseen.',
  [B],['sub-step loop of BmiLGAR::Update'],[],['infiltration','surface_runoff','actual_evapotranspiration','soil_moisture_wetting_fronts'])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
