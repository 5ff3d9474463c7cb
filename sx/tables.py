"""Reference tables: the wire layout of every record and PDU, the PDU types.

Written by hand from IEEE 1278.1-2012 / SISO-REF-010 and the documented
attribute names of the package; never generated from the code under test.

Line forms inside a record:
  name T             scalar: u8 u16 u32 u64 i8 i16 i32 i64 f32 f64, or a record
  name [T;n]         fixed-length list
  name [T]           variable-length list of T
  #name T            count of list `name`   (#name*8: times 8; #name+6: plus 6)
  -n                 n reserved octets, sent as zero
  bits a:3 b:5       bit-field octets, most significant bit first
  @name ...          handled by code in layout.py
A trailing `ctor=x` gives the constructor keyword when it differs.
"""

RECORDS = '''
SimulationAddress
  site u16
  application u16
EntityIdentifier
  simulationAddress SimulationAddress
  entityNumber u16
EventIdentifier
  simulationAddress SimulationAddress
  eventNumber u16
EulerAngles
  psi f32
  theta f32
  phi f32
Vector3Float
  x f32
  y f32
  z f32
WorldCoordinates
  x f64
  y f64
  z f64
DataQueryDatumSpecification
  #fixedDatumIDs u32
  #variableDatumIDs u32
  fixedDatumIDs [u32]
  variableDatumIDs [u32]
RadioIdentifier
  siteNumber u16
  applicationNumber u16
  referenceNumber u16
  radioNumber u16
RequestID
  requestID u32
IFFData
  recordType u32
  #iffData+6 u16
  iffData [u8]
MunitionDescriptor
  munitionType EntityType
  warhead u16
  fuse u16
  quantity u16
  rate u16
MinefieldSensorType
  sensorType u16
GroupID
  simulationAddress SimulationAddress
  groupNumber u16
LayerHeader
  layerNumber u8
  layerSpecificInformation u8
  length u16
UnsignedDISInteger
  val u32
DeadReckoningParameters
  deadReckoningAlgorithm u8
  parameters [u8;15]
  entityLinearAcceleration Vector3Float
  entityAngularVelocity Vector3Float
ProtocolMode
  protocolMode u16
AngleDeception
  recordType u32 ctor=-
  recordLength u16 ctor=-
  -2
  emitterNumber u8
  beamNumber u8
  stateIndicator u8
  -1
  azimuthOffset f32
  azimuthWidth f32
  azimuthPullRate f32
  azimuthPullAcceleration f32
  elevationOffset f32
  elevationWidth f32
  elevationPullRate f32
  elevationPullAcceleration f32
  -4
EntityAssociation
  recordType u8 ctor=-
  changeIndicator u8
  associationStatus u8
  associationType u8
  entityID EntityIdentifier
  ownStationLocation u16
  physicalConnectionType u8
  groupMemberType u8
  groupNumber u16
VectoringNozzleSystem
  horizontalDeflectionAngle f32
  verticalDeflectionAngle f32
FalseTargetsAttribute
  recordType u32 ctor=-
  recordLength u16 ctor=-
  -2
  emitterNumber u8
  beamNumber u8
  stateIndicator u8
  -1
  -2
  falseTargetCount u16
  walkSpeed f32
  walkAcceleration f32
  maximumWalkDistance f32
  keepTime f32
  echoSpacing f32
  -4
MinefieldIdentifier
  simulationAddress SimulationAddress
  minefieldNumber u16
RadioType
  entityKind u8 ctor=-
  domain u8
  country u16
  category u8
  subcategory u8
  specific u8
  extra u8
NamedLocationIdentification
  stationName u16
  stationNumber u16
IFFDataSpecification
  #iffDataRecords u16
  iffDataRecords [IFFData]
OwnershipStatus
  entityId EntityIdentifier
  ownershipStatus u8
  -1
AttachedParts
  recordType u8 ctor=-
  detachedIndicator u8
  partAttachedTo u16
  parameterType u32
  attachedPartType EntityType
Attribute
  recordType u32
  recordLength u16
  recordSpecificFields i64
RecordQuerySpecification
  #recordIDs u32
  recordIDs [u32]
ArticulatedParts
  recordType u8 ctor=-
  changeIndicator u8
  partAttachedTo u16
  parameterType u32
  parameterValue f32
  -4
ObjectType
  domain u8
  objectKind u8
  category u8
  subcategory u8
Association
  associationType u8
  -1
  associatedEntityID EntityIdentifier
  associatedLocation WorldCoordinates
RecordSpecificationElement
  recordID u32
  recordSetSerialNumber u32
  recordLength u16
  recordCount u16
  recordValues u16
  -1
AntennaLocation
  antennaLocation WorldCoordinates
  relativeAntennaLocation Vector3Float
ObjectIdentifier
  simulationAddress SimulationAddress
  objectNumber u16
AggregateIdentifier
  simulationAddress SimulationAddress
  aggregateID u16
FixedDatum
  fixedDatumID u32
  fixedDatumValue u32
VariableParameter
  recordType u8
  variableParameterFields1 f64
  variableParameterFields2 u32
  variableParameterFields3 u16
  variableParameterFields4 u8
ChangeOptions
LiveSimulationAddress
  liveSiteNumber u8
  liveApplicationNumber u8
EntityMarking
  characterSet u8
  characters [u8;11]
UAFundamentalParameter
  activeEmissionParameterIndex u16
  scanPattern u16
  beamCenterAzimuthHorizontal f32
  azimuthalBeamwidthHorizontal f32 ctor=azimuthBeamwidthHorizontal
  beamCenterDepressionElevation f32
  beamwidthDownElevation f32
ExplosionDescriptor
  explodingObject EntityType
  explosiveMaterial u16
  -2
  explosiveForce f32
ClockTime
  hour i32
  timePastHour u32
SecondaryOperationalData
  operationalData1 u8
  operationalData2 u8
  numberOfIFFFundamentalParameterRecords u16
EnvironmentType
  entityKind u8
  domain u8
  entityClass u16
  category u8
  subcategory u8
  specific u8
  extra u8
TotalRecordSets
  totalRecordSets u16
  -2
MineEntityIdentifier
  simulationAddress SimulationAddress
  mineEntityNumber u16
Relationship
  nature u16
  position u16
EEFundamentalParameterData
  frequency f32
  frequencyRange f32
  effectiveRadiatedPower f32
  pulseRepetitionFrequency f32
  pulseWidth f32
  beamAzimuthCenter f32
  beamAzimuthSweep f32
  beamElevationCenter f32
  beamElevationSweep f32
  beamSweepSync f32
JammingTechnique
  kind u8
  category u8
  subcategory u8
  specific u8
DatumSpecification
  #fixedDatumRecords u32
  #variableDatumRecords u32
  fixedDatumRecords [FixedDatum]
  variableDatumRecords [VariableDatum]
Expendable
  expendable EntityType
  station u32
  quantity u16
  expendableStatus u8
  -1
IOCommunicationsNode
  recordType u32 ctor=-
  recordLength u16 ctor=-
  communcationsNodeType u8 ctor=communicationsNodeType
  -1
  communicationsNodeID CommunicationsNodeID
LinearSegmentParameter
  segmentNumber u8
  segmentModification u8
  generalSegmentAppearance u16
  specificSegmentAppearance u32
  segmentLocation WorldCoordinates
  segmentOrientation EulerAngles
  segmentLength f32
  segmentWidth f32
  segmentHeight f32
  segmentDepth f32
  -4
SystemIdentifier
  systemType u16
  systemName u16
  systemMode u16
  changeOptions ChangeOptions
TrackJamData
  entityID EntityIdentifier
  emitterNumber u8
  beamNumber u8
AggregateType
  aggregateKind u8
  domain u8
  country u16
  category u8
  subcategory u8
  specificInfo u8
  extra u8
SimulationManagementPduHeader
  pduHeader PduHeader
  originatingID SimulationIdentifier
  receivingID SimulationIdentifier
BeamData
  beamAzimuthCenter f32
  beamAzimuthSweep f32
  beamElevationCenter f32
  beamElevationSweep f32
  beamSweepSync f32
EngineFuel
  fuelQuantity u32
  fuelMeasurementUnits u8
  fuelType u8
  fuelLocation u8
  -1
IOEffect
  recordType u32 ctor=-
  recordLength u16 ctor=-
  ioStatus u8
  ioLinkType u8
  ioEffect u8
  ioEffectDutyCycle u8
  ioEffectDuration u16
  ioProcess u16
  -2
SimulationIdentifier
  simulationAddress SimulationAddress
  referenceNumber u16
GridAxisDescriptorVariable
  domainInitialXi f64
  domainFinalXi f64
  domainPointsXi u16
  interleafFactor u8
  axisType u8
  #xiValues u16
  initialIndex u16
  coordinateScaleXi f64
  coordinateOffsetXi f64
  xiValues [u16]
SupplyQuantity
  supplyType EntityType
  quantity f32
SilentEntitySystem
  numberOfEntities u16
  #appearanceRecordList u16
  entityType EntityType
  appearanceRecordList [u32]
SilentAggregateSystem
  numberOfAggregates u16
  aggregateType AggregateType
BlankingSector
  recordType i32 ctor=-
  recordLength u16 ctor=-
  -2
  emitterNumber u8
  beamNumber u8
  stateIndicator u8
  -1
  leftAzimuth f32
  rightAzimuth f32
  lowerElevation f32
  upperElevation f32
  residualPower f32
  -4
  -4
LaunchedMunitionRecord
  fireEventID EventIdentifier
  -2
  firingEntityID EventIdentifier
  -2
  targetEntityID EventIdentifier
  -2
  targetLocation WorldCoordinates
IFFFundamentalParameterData
  erp f32
  frequency f32
  pgrf f32
  pulseWidth f32
  burstLength u32
  applicableModes u8
  systemSpecificData [u8;3]
FundamentalOperationalData
  systemStatus u8
  dataField1 u8
  informationLayers u8
  dataField2 u8
  parameter1 u16
  parameter2 u16
  parameter3 u16
  parameter4 u16
  parameter5 u16
  parameter6 u16
IntercomCommunicationsParameters
  recordType u16
  recordLength u16
  recordSpecificField u32
EntityType
  entityKind u8
  domain u8
  country u16
  category u8
  subcategory u8
  specific u8
  extra u8
Munition
  munitionType EntityType
  station u32
  quantity u16
  munitionStatus u8
  -1
StandardVariableSpecification
  #standardVariables u16
  standardVariables [SV]
Vector2Float
  x f32
  y f32
Environment
  environmentType u32
  length u16
  index u8
  -1
AcousticEmitter
  acousticSystemName u16
  acousticFunction u8
  acousticIDNumber u8
AngularVelocityVector
  x f32
  y f32
  z f32
AggregateMarking
  characterSet u8
  characters [u8;31]
DataFilterRecord
  bitFlags u32
IntercomIdentifier
  siteNumber u16
  applicationNumber u16
  referenceNumber u16
  intercomNumber u16
StorageFuel
  fuelQuantity u32
  fuelMeasurementUnits u8
  fuelType u8
  fuelLocation u8
  -1
Sensor
  sensorTypeSource u8
  sensorOnOffStatus u8
  sensorType u16
  station u32
  quantity u16
  -2
MunitionReload
  munitionType EntityType
  station u32
  standardQuantity u16
  maximumQuantity u16
  standardQuantityReloadTime u32
  maximumQuantityReloadTime u32
StorageFuelReload
  standardQuantity u32
  maximumQuantity u32
  standardQuantityReloadTime u32
  maximumQuantityReloadTime u32
  fuelMeasurementUnits u8
  fuelType u8
  fuelLocation u8
  -1
ExpendableReload
  expendable EntityType
  station u32
  standardQuantity u16
  maximumQuantity u16
  standardQuantityReloadTime u32
  maximumQuantityReloadTime u32
EngineFuelReload
  standardQuantity u32
  maximumQuantity u32
  standardQuantityReloadTime u32
  maximumQuantityReloadTime u32
  fuelMeasurmentUnits u8 ctor=fuelMeasurementUnits
  fuelLocation u8
  -1
UnattachedIdentifier
  simulationAddress SimulationAddress
  referenceNumber u16
EntityTypeVP
  recordType u8 ctor=-
  changeIndicator u8
  entityType EntityType
  -6
BeamStatus
  @reserved7
  beamState bit1
EnvironmentGeneral
  environmentType u32
  length u16
  index u8
  -1
  geometry u8
  -1
GridAxis
  domainInitialXi f64
  domainFinalXi f64
  domainPointsXi u16
  interleafFactor u8
  axisType u8
  numberOfPointsOnXiAxis u16
  initialIndex u16
RecordSpecification
  #recordSets u32
  recordSets [RecordSpecificationElement]
VariableDatum
  @VariableDatum
EventIdentifierLiveEntity
  siteNumber u8
  applicationNumber u8
  eventNumber u16
PduHeader
  protocolVersion u8
  exerciseID u8
  pduType u8
  protocolFamily u8
  timestamp u32
  pduLength u16
  pduStatus u8
  -1
CommunicationsNodeID
  entityID EntityIdentifier
  elementID u16
ExpendableDescriptor
  expendableType EntityType
  -8
PropulsionSystemData
  powerSetting f32
  engineRpm f32
LiveEntityIdentifier
  liveSimulationAddress LiveSimulationAddress
  entityNumber u16
SeparationVP
  recordType u8 ctor=-
  reasonForSeparation u8
  preEntityIndicator u8
  -1
  parentEntityID EntityIdentifier
  -2
  stationLocation NamedLocationIdentification
EmitterSystem
  emitterName u16
  emitterFunction u8
  emitterIDNumber u8
PduStatus
  pduStatus u8
EmissionSystemBeamRecord
  beamDataLength u8
  beamIDNumber u8
  beamParameterIndex u16
  fundamentalParameterData EEFundamentalParameterData
  beamFunction u8
  #trackJamRecords u8
  highDensityTrackJam u8
  beamStatus BeamStatus
  jammingModeSequence u32
  trackJamRecords [TrackJamData]
EmissionSystemRecord
  systemDataLength u8
  #beamRecords u8
  -2
  emitterSystem EmitterSystem
  location Vector3Float
  beamRecords [EmissionSystemBeamRecord]
SpreadSpectrum
  bits frequencyHopping:1 pseudoNoise:1 timeHopping:1 padding:13
NetId
  bits netNumber:10 frequencyTable:2 mode:2 padding:2
DEFireFlags
  bits weaponOn:1 stateUpdateFlag:1 -:14
ModulationType
  spreadSpectrum SpreadSpectrum
  majorModulation u16
  detail u16
  radioSystem u16
BeamAntennaPattern
  beamDirection EulerAngles
  azimuthBeamwidth f32
  elevationBeamwidth f32
  referenceSystem u8
  -3
  ez f32
  ex f32
  phase f32
  -4
GenericRadio
SimpleIntercomRadio
BasicHaveQuickMP
  net_id NetId
  mwod_index u16
  reserved16 u16
  reserved8_1 u8
  reserved8_2 u8
  time_of_day u32
  padding u32
CCTTSincgarsMP
  fh_net_id u16
  hop_set_id u16
  lockout_set_id u16
  start_of_message u8
  clear_channel u8
  fh_sync_time_offset u32
  transmission_security_key u16
  -2
DirectedEnergyTargetEnergyDeposition
  targetEntityID EntityIdentifier
  -2
  peakIrradiance f32
HighFidelityHAVEQUICKRadio sv=3000
  -2
  netId NetId
  todTransmitIndicator u8
  -1
  todDelta u32
  wod1 u32
  wod2 u32
  wod3 u32
  wod4 u32
  wod5 u32
  wod6 u32
DirectedEnergyPrecisionAimpoint sv=4000
  -2
  targetSpotLocation WorldCoordinates
  targetSpotEntityLocation Vector3Float
  targetSpotVelocity Vector3Float
  targetSpotAcceleration Vector3Float
  targetEntityID EntityIdentifier
  targetComponentID u8
  beamSpotType u8
  beamSpotCrossSectionSemiMajorAxis f32
  beamSpotCrossSectionSemiMinorAxis f32
  beamSpotCrossSectionOrientationAngle f32
  peakIrradiance f32
  -4
DirectedEnergyAreaAimpoint sv=4001
  -2
  #beamAntennaPatterns u16
  #directedEnergyTargetEnergyDepositions u16
  beamAntennaPatterns [BeamAntennaPattern]
  directedEnergyTargetEnergyDepositions [DirectedEnergyTargetEnergyDeposition]
DirectedEnergyDamage sv=4500
  -2
  damageLocation Vector3Float
  damageDiameter f32
  temperature f32
  componentIdentification u8
  componentDamageStatus u8
  componentVisualDamageStatus u8
  componentVisualSmokeColor u8
  fireEventID EventIdentifier
  -2
'''

# `Name type family`; a type of 0 means: not an instantiable PDU.
PDUS = '''
EntityStatePdu 1 1
  entityID EntityIdentifier
  forceId u8
  #variableParameters u8
  entityType EntityType
  alternativeEntityType EntityType
  entityLinearVelocity Vector3Float
  entityLocation WorldCoordinates
  entityOrientation EulerAngles
  entityAppearance u32
  deadReckoningParameters DeadReckoningParameters
  marking EntityMarking
  capabilities u32
  variableParameters [VariableParameter]
FirePdu 2 2
  firingEntityID EntityIdentifier ctor=-
  targetEntityID EntityIdentifier ctor=-
  munitionExpendableID EntityIdentifier
  eventID EventIdentifier
  fireMissionIndex u32
  location WorldCoordinates
  descriptor MunitionDescriptor
  velocity Vector3Float
  range f32 ctor=range_
DetonationPdu 3 2
  firingEntityID EntityIdentifier ctor=-
  targetEntityID EntityIdentifier ctor=-
  explodingEntityID EntityIdentifier
  eventID EventIdentifier
  velocity Vector3Float
  location WorldCoordinates
  descriptor MunitionDescriptor
  locationInEntityCoordinates Vector3Float
  detonationResult u8
  #variableParameters u8
  -2
  variableParameters [VariableParameter]
CollisionPdu 4 1
  issuingEntityID EntityIdentifier
  collidingEntityID EntityIdentifier
  eventID EventIdentifier
  collisionType u8
  -1
  velocity Vector3Float
  mass f32
  location Vector3Float
ServiceRequestPdu 5 3
  requestingEntityID EntityIdentifier
  servicingEntityID EntityIdentifier
  serviceTypeRequested u8
  #supplies u8
  -2
  supplies [SupplyQuantity]
ResupplyOfferPdu 6 3
  receivingEntityID EntityIdentifier
  supplyingEntityID EntityIdentifier
  #supplies u8
  -3
  supplies [SupplyQuantity]
ResupplyReceivedPdu 7 3
  receivingEntityID EntityIdentifier
  supplyingEntityID EntityIdentifier
  #supplies u8
  -3
  supplies [SupplyQuantity]
RepairCompletePdu 9 3
  receivingEntityID EntityIdentifier
  repairingEntityID EntityIdentifier
  repair u16
  -2
RepairResponsePdu 10 3
  receivingEntityID EntityIdentifier
  repairingEntityID EntityIdentifier
  repairResult u8
  -3
CreateEntityPdu 11 5
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requestID u32
RemoveEntityPdu 12 5
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requestID u32
StartResumePdu 13 5
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  realWorldTime ClockTime
  simulationTime ClockTime
  requestID u32
StopFreezePdu 14 5
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  realWorldTime ClockTime
  reason u8
  frozenBehavior u8
  -2
  requestID u32
AcknowledgePdu 15 5
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  acknowledgeFlag u16
  responseFlag u16
  requestID u32
ActionRequestPdu 16 5
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requestID u32
  actionID u32
  #fixedDatumRecords u32
  #variableDatumRecords u32
  fixedDatumRecords [FixedDatum]
  variableDatumRecords [VariableDatum]
ActionResponsePdu 17 5
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requestID u32
  requestStatus u32
  #fixedDatumRecords u32
  #variableDatumRecords u32
  fixedDatumRecords [FixedDatum]
  variableDatumRecords [VariableDatum]
DataQueryPdu 18 5
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requestID u32
  timeInterval u32
  #fixedDatumIDs u32
  #variableDatumIDs u32
  fixedDatumIDs [u32]
  variableDatumIDs [u32]
SetDataPdu 19 5
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requestID u32
  -4
  #fixedDatumRecords u32
  #variableDatumRecords u32
  fixedDatumRecords [FixedDatum]
  variableDatumRecords [VariableDatum]
DataPdu 20 5
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requestID u32
  -4
  #fixedDatumRecords u32
  #variableDatumRecords u32
  fixedDatumRecords [FixedDatum]
  variableDatumRecords [VariableDatum]
EventReportPdu 21 5
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  eventType u32
  -4
  #fixedDatumRecords u32
  #variableDatumRecords u32
  fixedDatumRecords [FixedDatum]
  variableDatumRecords [VariableDatum]
CommentPdu 22 5
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  #fixedDatumRecords u32
  #variableDatumRecords u32
  fixedDatumRecords [FixedDatum]
  variableDatumRecords [VariableDatum]
ElectromagneticEmissionsPdu 23 6
  emittingEntityID EntityIdentifier
  eventID EventIdentifier
  stateUpdateIndicator u8
  #systems u8
  -2
  systems [EmissionSystemRecord]
DesignatorPdu 24 6
  designatingEntityID EntityIdentifier
  codeName u16
  designatedEntityID EntityIdentifier
  designatorCode u16
  designatorPower f32
  designatorWavelength f32
  designatorSpotWrtDesignated Vector3Float
  designatorSpotLocation WorldCoordinates
  deadReckoningAlgorithm u8
  -3
  entityLinearAcceleration Vector3Float
TransmitterPdu 25 4
  @TransmitterPdu
SignalPdu 26 4
  entityID EntityIdentifier
  radioID u16
  encodingScheme u16
  tdlType u16
  sampleRate u32
  #data*8 u16
  samples u16
  data bytes
ReceiverPdu 27 4
  receiverState u16
  -2
  receivedPower f32
  transmitterEntityID EntityIdentifier
  transmitterRadioId u16
UaPdu 29 6
  emittingEntityID EntityIdentifier
  eventID EventIdentifier
  stateChangeIndicator u8
  -1
  passiveParameterIndex u16
  propulsionPlantConfiguration u8
  =3
SeesPdu 30 6
  orginatingEntityID EntityIdentifier ctor=originatingEntityID
  infraredSignatureRepresentationIndex u16
  acousticSignatureRepresentationIndex u16
  radarCrossSectionSignatureRepresentationIndex u16
  #propulsionSystemData u16
  #vectoringSystemData u16
  propulsionSystemData [PropulsionSystemData]
  vectoringSystemData [VectoringNozzleSystem]
IntercomSignalPdu 31 4
  entityID EntityIdentifier
  communicationsDeviceID u16
  encodingScheme u16
  tdlType u16
  sampleRate u32
  #data*8 u16
  samples u16
  data bytes
IntercomControlPdu 32 4
  controlType u8
  communicationsChannelType u8
  sourceEntityID EntityIdentifier
  sourceCommunicationsDeviceID u16
  sourceLineID u8
  transmitPriority u8
  transmitLineState u8
  command u8
  masterEntityID EntityIdentifier
  masterCommunicationsDeviceID u16
  #intercomParameters*8 u32
  intercomParameters [IntercomCommunicationsParameters]
AggregateStatePdu 33 7
  aggregateID AggregateIdentifier
  forceID u8
  aggregateState u8
  aggregateType AggregateType
  formation u32
  aggregateMarking AggregateMarking
  dimensions Vector3Float
  orientation EulerAngles
  centerOfMass Vector3Float
  velocity WorldCoordinates
  #aggregateIDs u16
  #entityIDs u16
  #silentAggregateSystems u16
  #silentEntitySystems u16
  aggregateIDs [AggregateIdentifier]
  entityIDs [EntityIdentifier]
  silentAggregateSystems [SilentAggregateSystem]
  silentEntitySystems [SilentEntitySystem]
  #variableDatumRecords u32
  variableDatumRecords [VariableDatum]
IsPartOfPdu 36 7
  orginatingEntityID EntityIdentifier ctor=originatingEntityID
  receivingEntityID EntityIdentifier
  relationship Relationship
  partLocation Vector3Float
  namedLocationID NamedLocationIdentification
  partEntityType EntityType
MinefieldStatePdu 37 8
  minefieldID MinefieldIdentifier
  minefieldSequence u16
  forceID u8
  #perimeterPoints u8
  minefieldType EntityType
  #mineTypes u16
  minefieldLocation WorldCoordinates
  minefieldOrientation EulerAngles
  appearance u16
  protocolMode u16
  perimeterPoints [Vector2Float]
  mineTypes [EntityType]
MinefieldResponseNackPdu 40 8
  minefieldID EntityIdentifier
  requestingEntityID EntityIdentifier
  requestID u8
  #missingPduSequenceNumbers u8
  missingPduSequenceNumbers [u8]
PointObjectStatePdu 43 9
  objectID EntityIdentifier
  referencedObjectID EntityIdentifier
  updateNumber u16
  forceID u8
  modifications u8
  objectType ObjectType
  objectLocation WorldCoordinates
  objectOrientation EulerAngles
  objectAppearance f64
  requesterID SimulationAddress
  receivingID SimulationAddress
  -4
LinearObjectStatePdu 44 9
  objectID EntityIdentifier
  referencedObjectID EntityIdentifier
  updateNumber u16
  forceID u8
  #linearSegmentParameters u8
  requesterID SimulationAddress
  receivingID SimulationAddress
  objectType ObjectType
  linearSegmentParameters [LinearSegmentParameter]
ArealObjectStatePdu 45 9
  objectID EntityIdentifier
  referencedObjectID EntityIdentifier
  updateNumber u16
  forceID u8 ctor=forceId
  modifications u8
  objectType ObjectType
  specificObjectAppearance u32
  generalObjectAppearance u16
  #objectLocation u16
  requesterID SimulationAddress
  receivingID SimulationAddress
  objectLocation [WorldCoordinates]
CreateEntityReliablePdu 51 10
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requiredReliabilityService u8
  -3
  requestID u32
RemoveEntityReliablePdu 52 10
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requiredReliabilityService u8
  -3
  requestID u32
StartResumeReliablePdu 53 10
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  realWorldTime ClockTime
  simulationTime ClockTime
  requiredReliabilityService u8
  -3
  requestID u32
StopFreezeReliablePdu 54 10
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  realWorldTime ClockTime
  reason u8
  frozenBehavior u8
  requiredReliablityService u8 ctor=requiredReliabilityService
  -1
  requestID u32
AcknowledgeReliablePdu 55 10
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  acknowledgeFlag u16
  responseFlag u16
  requestID u32
ActionRequestReliablePdu 56 10
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requiredReliabilityService u8
  -3
  requestID u32
  actionID u32
  -4
  #fixedDatumRecords u32
  #variableDatumRecords u32
  fixedDatumRecords [FixedDatum]
  variableDatumRecords [VariableDatum]
ActionResponseReliablePdu 57 10
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requestID u32
  responseStatus u32
  #fixedDatumRecords u32
  #variableDatumRecords u32
  fixedDatumRecords [FixedDatum]
  variableDatumRecords [VariableDatum]
DataQueryReliablePdu 58 10
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requiredReliabilityService u8
  -3
  requestID u32
  timeInterval u32
  #fixedDatumIDs u32
  #variableDatumIDs u32
  fixedDatumIDs [u32]
  variableDatumIDs [u32]
SetDataReliablePdu 59 10
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requiredReliabilityService u8
  -3
  requestID u32
  #fixedDatumRecords u32
  #variableDatumRecords u32
  fixedDatumRecords [FixedDatum]
  variableDatumRecords [VariableDatum]
DataReliablePdu 60 10
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requestID u32
  requiredReliabilityService u8
  -3
  #fixedDatumRecords u32
  #variableDatumRecords u32
  fixedDatumRecords [FixedDatum]
  variableDatumRecords [VariableDatum]
EventReportReliablePdu 61 10
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  eventType u32
  -4
  #fixedDatumRecords u32
  #variableDatumRecords u32
  fixedDatumRecords [FixedDatum]
  variableDatumRecords [VariableDatum]
CommentReliablePdu 62 10
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  #fixedDatumRecords u32
  #variableDatumRecords u32
  fixedDatumRecords [FixedDatum]
  variableDatumRecords [VariableDatum]
RecordQueryReliablePdu 63 10
  originatingEntityID EntityIdentifier ctor=-
  receivingEntityID EntityIdentifier ctor=-
  requestID u32
  requiredReliabilityService u8
  -3
  eventType u16
  time u32
  #recordIDs u32
  recordIDs [u32]
CollisionElasticPdu 66 1
  issuingEntityID EntityIdentifier
  collidingEntityID EntityIdentifier
  collisionEventID EventIdentifier
  -2
  contactVelocity Vector3Float
  mass f32
  locationOfImpact Vector3Float
  collisionIntermediateResultXX f32
  collisionIntermediateResultXY f32
  collisionIntermediateResultXZ f32
  collisionIntermediateResultYY f32
  collisionIntermediateResultYZ f32
  collisionIntermediateResultZZ f32
  unitSurfaceNormal Vector3Float
  coefficientOfRestitution f32
EntityStateUpdatePdu 67 1
  entityID EntityIdentifier
  -1
  #variableParameters u8
  entityLinearVelocity Vector3Float
  entityLocation WorldCoordinates
  entityOrientation EulerAngles
  entityAppearance u32
  variableParameters [VariableParameter]
DirectedEnergyFirePdu 68 2
  firingEntityID EntityIdentifier ctor=-
  targetEntityID EntityIdentifier ctor=-
  munitionType EntityType
  shotStartTime ClockTime
  cumulativeShotTime f32
  apertureEmitterLocation Vector3Float
  apertureDiameter f32
  wavelength f32
  -4
  pulseRepetitionFrequency f32
  pulseWidth f32
  flags DEFireFlags
  pulseShape u8
  -1
  -4
  -2
  #dERecords u16
  dERecords [SVdd]
EntityDamageStatusPdu 69 2
  firingEntityID EntityIdentifier ctor=-
  targetEntityID EntityIdentifier ctor=-
  damagedEntityID EntityIdentifier
  -2
  -2
  #damageDescriptions u16
  damageDescriptions [SVdd]
AttributePdu 72 1 unregistered
  originatingSimulationAddress SimulationAddress
  -4
  -2
  attributeRecordPduType u8
  attributeRecordProtocolVersion u8
  masterAttributeRecordType u32
  actionCode u8
  -1
  numberOfAttributeRecordSets u16
FastEntityStatePdu 1 1 unregistered
  site u16
  application u16
  entity u16
  forceId u8
  #variableParameters u8
  entityKind u8
  domain u8
  country u16
  category u8
  subcategory u8
  specific u8
  extra u8
  altEntityKind u8
  altDomain u8
  altCountry u16
  altCategory u8
  altSubcategory u8
  altSpecific u8
  altExtra u8
  xVelocity f32
  yVelocity f32
  zVelocity f32
  xLocation f64
  yLocation f64
  zLocation f64
  psi f32
  theta f32
  phi f32
  entityAppearance i32
  deadReckoningAlgorithm u8
  otherParameters [i8;15]
  xAcceleration f32
  yAcceleration f32
  zAcceleration f32
  xAngularVelocity f32
  yAngularVelocity f32
  zAngularVelocity f32
  marking [i8;12]
  capabilities i32
  variableParameters [VariableParameter]
'''

HEADER = '''
  protocolVersion u8
  exerciseID u8
  pduType u8
  protocolFamily u8
  timestamp u32
  length u16 ctor=-
  pduStatus u8 ctor=-
  -1
'''
