// Golden descriptions, one per enumerator in declaration order (reviewed against the standards).
#pragma once
#include <string>
#include <vector>
#include <map>
#include "CommonSEGD.hpp"
#include "CommonSEGY.hpp"
struct NameTable { char const* cls; char const* (*get)(int); std::vector<std::string> golden; };
template <class T> char const* name_of(int i) { return T::name_as_string(static_cast<typename T::Name>(i)); }
inline std::vector<NameTable> const& name_tables()
{
    using namespace sedaman;
    static std::vector<NameTable> const t = {
        { "BinaryHeader", name_of<CommonSEGY::BinaryHeader>, {
            "Job identification number",
            "Line number",
            "Reel number",
            "Number of data traces per ensemble",
            "Number of auxiliary traces per ensemble",
            "Sample interval",
            "Sample interval of original field recording.",
            "Number of samples per data trace",
            "Number of samples per data trace of original field recording",
            "Data sample format code",
            "Ensemble fold",
            "Trace sorting code",
            "Vertical sum code",
            "Sweep frequency at start (Hz)",
            "Sweep frequency at end (Hz)",
            "Sweep length (ms)",
            "Sweep type code",
            "Trace number of sweep channel",
            "Sweep trace taper length in ms at start if tapered",
            "Sweep trace taper length in ms at end",
            "Taper type",
            "Correlated data traces",
            "Binary gain recovered",
            "Amplitude recovery method",
            "Measure system",
            "Impulse signal polarity",
            "Vibratory polarity code",
            "Extended number of data traces per ensemble",
            "Extended number of auxiliary traces per ensemble",
            "Extended number of samples per data trace",
            "Extended sample interval",
            "Extended sample interval of original field recording",
            "Extended number of samples per data trace in original recording",
            "Extended ensemble fold",
            "Integer constant used to detect the byte ordering",
            "Major SEG-Y Format Revision Number",
            "Minor SEG-Y Format Revision Number",
            "Fixed length trace flag",
            "Number of Extended Textual File Header records",
            "Maximum number of additional trace headers",
            "Time basis code",
            "Number of traces in this file",
            "Byte offset of first traces relative to start of file",
            "Number of data trailer stanza records",
        } },
        { "GeneralHeader", name_of<CommonSEGD::GeneralHeader>, {
            "File number",
            "Format code",
            "General constants",
            "Last two digits of year",
            "Number of additional blocks in General Header",
            "Julian day",
            "Hour of dat (Greenwich Mean Time)",
            "Minute of hour",
            "Second of minute",
            "Manufacturer's code",
            "Manufacturer's serial number",
            "Bytes per scan are utilized in the multiplexed formats",
            "Base scan interval",
            "Polarity",
            "Number of scans in a block. It is valid only for multiplexed data",
            "Record type",
            "Record length from time zero",
            "Scan types per record",
            "Number of channel sets per scan type",
            "Number of 32 byte fields added to the end of each scan type header",
            "Extended header length",
            "External header length",
        } },
        { "GeneralHeader2", name_of<CommonSEGD::GeneralHeader2>, {
            "Expanded File Number",
            "Extended Channel Sets per Scan Types",
            "Extended Header Blocks",
            "External Header Blocks",
            "Extended_skew_blocks",
            "SEG-D Revision Number Major",
            "SEG-D Revision Number Minor",
            "The number of 32 bytr blocks to be used to General Trailers",
            "Extended Record Length",
            "Record set number",
            "Extended Number of additional Blocks in the General Header",
            "Dominant Sampling Interval",
            "General Header Block Number",
        } },
        { "GeneralHeaderN", name_of<CommonSEGD::GeneralHeaderN>, {
            "Expanded File Number",
            "Source Line Number",
            "Source Point Number",
            "Source Point Index",
            "Phase Control",
            "Type Vibrator",
            "Phase Angle",
            "General Header Block Number",
            "Source Set Number",
        } },
        { "GeneralHeader3", name_of<CommonSEGD::GeneralHeader3>, {
            "Time Zero for this record",
            "The total size of the SEG-D record in bytes",
            "The total size of the headers and data in this record in bytes",
            "The total size of the headers in this record in bytes",
            "1 for Extended Recording Mode, 0 for normal record",
            "1 if this record does not contain absolute timestamps",
            "General Header Block Number",
        } },
        { "GeneralHeaderVes", name_of<CommonSEGD::GeneralHeaderVes>, {
            "Abbreviated vessel or crew name",
            "Vessel or crew name",
            "General header type",
        } },
        { "GeneralHeaderSur", name_of<CommonSEGD::GeneralHeaderSur>, {
            "Survey Area Name",
            "General header type",
        } },
        { "GeneralHeaderCli", name_of<CommonSEGD::GeneralHeaderCli>, {
            "Client Area Name",
            "General header type",
        } },
        { "GeneralHeaderJob", name_of<CommonSEGD::GeneralHeaderJob>, {
            "Abbr Job Identification",
            "Job Identification",
            "General header type",
        } },
        { "GeneralHeaderLin", name_of<CommonSEGD::GeneralHeaderLin>, {
            "Line Abbreviation",
            "Line Identification",
            "General header type",
        } },
        { "GeneralHeaderVib", name_of<CommonSEGD::GeneralHeaderVib>, {
            "Expanded File Number",
            "Source Line Number",
            "Source Point Number",
            "Source Point Index",
            "Phase Control",
            "Type Vibrator",
            "Phase Angle",
            "Source Id",
            "Source Set No",
            "Re-shoot Index",
            "Group Index",
            "Depth Index",
            "Offset Cross-line",
            "Offset In-line",
            "Size",
            "Offset Depth",
            "General header type",
        } },
        { "GeneralHeaderExp", name_of<CommonSEGD::GeneralHeaderExp>, {
            "Expanded File Number",
            "Source Line Number",
            "Source Point Number",
            "Source Point Index",
            "Depth",
            "Charge Length",
            "Soil Type",
            "Source Id",
            "Source Set No",
            "Re-shoot Index",
            "Group Index",
            "Depth Index",
            "Offset Cross-line",
            "Offset In-line",
            "Size",
            "Offset Depth",
            "General header type",
        } },
        { "GeneralHeaderAir", name_of<CommonSEGD::GeneralHeaderAir>, {
            "Expanded File Number",
            "Source Line Number",
            "Source Point Number",
            "Source Point Index",
            "Depth",
            "Air pressure",
            "Source Id",
            "Source Set No",
            "Re-shoot Index",
            "Group Index",
            "Depth Index",
            "Offset Cross-line",
            "Offset In-line",
            "Size",
            "Offset Depth",
            "General header type",
        } },
        { "GeneralHeaderWat", name_of<CommonSEGD::GeneralHeaderWat>, {
            "Expanded File Number",
            "Source Line Number",
            "Source Point Number",
            "Source Point Index",
            "Depth",
            "Air pressure",
            "Source Id",
            "Source Set No",
            "Re-shoot Index",
            "Group Index",
            "Depth Index",
            "Offset Cross-line",
            "Offset In-line",
            "Size",
            "Offset Depth",
            "General header type",
        } },
        { "GeneralHeaderEle", name_of<CommonSEGD::GeneralHeaderEle>, {
            "Expanded File Number",
            "Source Line Number",
            "Source Point Number",
            "Source Point Index",
            "Source type",
            "Moment",
            "Source Id",
            "Source Set No",
            "Re-shoot Index",
            "Group Index",
            "Depth Index",
            "Offset Cross-line",
            "Offset In-line",
            "Size",
            "Offset Depth",
            "General header type",
        } },
        { "GeneralHeaderOth", name_of<CommonSEGD::GeneralHeaderOth>, {
            "Expanded File Number",
            "Source Line Number",
            "Source Point Number",
            "Source Point Index",
            "Source Id",
            "Source Set No",
            "Re-shoot Index",
            "Group Index",
            "Depth Index",
            "Offset Cross-line",
            "Offset In-line",
            "Size",
            "Offset Depth",
            "General header type",
        } },
        { "GeneralHeaderAdd", name_of<CommonSEGD::GeneralHeaderAdd>, {
            "Time",
            "Source Status",
            "Source Id",
            "Source Moving",
            "Error description",
            "General header type",
        } },
        { "GeneralHeaderSaux", name_of<CommonSEGD::GeneralHeaderSaux>, {
            "Source Id",
            "Scan Type Number 1",
            "Channel Set Number 1",
            "Trace Number 1",
            "Scan Type Number 2",
            "Channel Set Number 2",
            "Trace Number 2",
            "Scan Type Number 3",
            "Channel Set Number 3",
            "Trace Number 3",
            "Scan Type Number 4",
            "Channel Set Number 4",
            "Trace Number 4",
            "Scan Type Number 5",
            "Channel Set Number 5",
            "Trace Number 5",
            "General header type",
        } },
        { "GeneralHeaderCoord", name_of<CommonSEGD::GeneralHeaderCoord>, {
            "Coordinate Reference System (CRS) identification",
            "General header type",
        } },
        { "GeneralHeaderPos1", name_of<CommonSEGD::GeneralHeaderPos1>, {
            "Time of position",
            "Time of measurement/calculation",
            "Vertical error",
            "Horizontal error ellipse semi-major dimension",
            "Horizontal error ellipse semi-minor dimension",
            "Horizontal error ellipse orientation",
            "Position Type",
            "General header type",
        } },
        { "GeneralHeaderPos2", name_of<CommonSEGD::GeneralHeaderPos2>, {
            "Coord tuple 1 / CRS A Coord 1",
            "Coord tuple 1 / CRS A Coord 2",
            "Coord tuple 1 / CRS A Coord 3",
            "CRS A CRSREF Stanza ID 1",
            "Position 1 valid",
            "Position 1 quality",
            "General header type",
        } },
        { "GeneralHeaderPos3", name_of<CommonSEGD::GeneralHeaderPos3>, {
            "Coord tuple 2 / CRS B Coord 1",
            "Coord tuple 2 / CRS B Coord 2",
            "Coord tuple 2 / CRS B Coord 3",
            "CRS B CRSREF Stanza ID 1",
            "Position 2 valid",
            "Position 2 quality",
            "General header type",
        } },
        { "GeneralHeaderRel", name_of<CommonSEGD::GeneralHeaderRel>, {
            "Offset easting",
            "Offset northing",
            "Offset vertical",
            "Description",
            "General header type",
        } },
        { "GeneralHeaderSen", name_of<CommonSEGD::GeneralHeaderSen>, {
            "Instrument Test Time",
            "Sensor Sensitivity",
            "Instr Test Result",
            "Serial Number",
            "General header type",
        } },
        { "GeneralHeaderSCa", name_of<CommonSEGD::GeneralHeaderSCa>, {
            "Frequency 1",
            "Amplitude 1",
            "Phase 1",
            "Frequency 2",
            "Amplitude 2",
            "Phase 2",
            "Calibration applied",
            "General header type",
        } },
        { "GeneralHeaderTim", name_of<CommonSEGD::GeneralHeaderTim>, {
            "Time of deployment",
            "Time of retrieval",
            "Timer Offset Deployment",
            "Time Offset Retrieval",
            "Timedrift corrected",
            "Correction method",
            "General header type",
        } },
        { "GeneralHeaderElSR", name_of<CommonSEGD::GeneralHeaderElSR>, {
            "Equipment Dimension X",
            "Equipment Dimension Y",
            "Equipment Dimension Z",
            "Positive terminal",
            "Equipment Offset X",
            "Equipment Offset Y",
            "Equipment Offset Z",
            "General header type",
        } },
        { "GeneralHeaderOri", name_of<CommonSEGD::GeneralHeaderOri>, {
            "Rotation x axis",
            "Rotation Y axis",
            "Rotation Z axis",
            "Reference Orientation",
            "Time Stamp",
            "Orientation Type",
            "Ref Orient Valid",
            "Rotation Applied",
            "Rot North Applied",
            "Applied",
            "General header type",
        } },
        { "GeneralHeaderMeas", name_of<CommonSEGD::GeneralHeaderMeas>, {
            "Timestamp",
            "Measurement Value",
            "Maximum Value",
            "Minimum Value",
            "Quantity Class",
            "Unit Of Measure",
            "Measurement Description",
            "General header type",
        } },
        { "ChannelSetHeader", name_of<CommonSEGD::ChannelSetHeader>, {
            "Scan type number",
            "Channel set number",
            "Channel type",
            "Channel set start time",
            "Channel set end time",
            "Descale multiplier",
            "Number of channels",
            "Subscans per channel set",
            "Channel gain",
            "Alias filter frequency",
            "Alias filter slope",
            "Low cut filter frequency",
            "Low cut filter slope",
            "First notch filter",
            "Second notch filter",
            "Third notch filter",
            "Extended channel set number",
            "Extended header flag",
            "Trace header extension",
            "Verical stack",
            "Streamer no",
            "Array forming",
            "Number of samples",
            "Sample interval",
            "Filter phase",
            "Physical unit",
            "Filter delay",
            "Description",
        } },
    };
    return t;
}
inline std::map<std::string, std::string> const& golden_descriptions()
{
    static std::map<std::string, std::string> const t = {
        { "TRC_SEQ_LINE", "Trace sequence number within line." },
        { "TRC_SEQ_SGY", "Trace sequence number within SEGY file." },
        { "FFID", "Original field record number." },
        { "CHAN", "Trace number within the original field record." },
        { "ESP", "Energy source point number. Used when more than one record occures at the same effective surface location." },
        { "ENS_NO", "Ensemble number (i.e. CDP, CMP, CRP, etc.)." },
        { "SEQ_NO", "Trace number within the ensemble." },
        { "TRACE_ID", "Trace identification code." },
        { "VERT_SUM", "Number of vertically summed traces yielding this trace." },
        { "HOR_SUM", "Number of horizontally stacked traces yielding this trace." },
        { "DATA_USE", "Data use: 1 = Production, 2 = Test" },
        { "OFFSET", "Distance from center of the source point to the center of the receiver group." },
        { "R_ELEV", "Elevation of receiver group." },
        { "S_ELEV", "Surface elevation at source location." },
        { "S_DEPTH", "Source depth below surface." },
        { "R_DATUM", "Seismic Datum elevation at receiver group." },
        { "S_DATUM", "Seismic Datum elevation at source." },
        { "S_WATER", "Water column height at source location." },
        { "R_WATER", "Water column height at reseiver group location." },
        { "ELEV_SCALAR", "Scalar to be aplied to all elevations and depths." },
        { "COORD_SCALAR", "Scalar to be applied to all coordinates." },
        { "SOU_X", "Source coordinate X." },
        { "SOU_Y", "Source coordinate Y." },
        { "REC_X", "Group coordinate X." },
        { "REC_Y", "Group coordinate Y." },
        { "COORD_UNITS", "Coordinate units. (1,3,4): length; decimal degrees; DMS." },
        { "WEATH_VEL", "Weathering velocity." },
        { "SUBWEATH_VEL", "Subweathering velocity." },
        { "S_UPHOLE", "Uphole time at source in milliseconds." },
        { "R_UPHOLE", "Uphole time at group in milliseconds." },
        { "S_STAT", "Source static correction in milliseconds." },
        { "R_STAT", "Receiver static correction in milliseconds." },
        { "TOT_STAT", "Total static applied in milliseconds." },
        { "LAG_A", "Lag time A. Time in ms between end of trace header and time break." },
        { "LAG_B", "Lag time B. Time in ms between time break and initiation of source." },
        { "DELAY_TIME", "Delay recording time. Time in ms between initiation of source andstart of recording" },
        { "MUTE_START", "Mute time. Start time in milliseconds." },
        { "MUTE_END", "Mute time. End time in milliseconds." },
        { "SAMP_NUM", "Number of samples in this trace." },
        { "SAMP_INT", "Sample interval for this trace." },
        { "GAIN_TYPE", "Gain type of field instruments: 1 = fixed, 2 = binary, 3 = floating point." },
        { "GAIN_CONST", "Instrument gain constant (dB)." },
        { "INIT_GAIN", "Instrument early or initial gain (dB)." },
        { "CORRELATED", "Correlated: 1 = no, 2 = yes." },
        { "SW_START", "Sweep frequency at start (Hz)." },
        { "SW_END", "Sweep frequency at end (Hz)." },
        { "SW_LENGTH", "Sweep length in milliseconds." },
        { "SW_TYPE", "Sweep type: 1 = linear, 2 = parabolic, 3 = exponential." },
        { "SW_TAPER_START", "Sweep trace taper length at start in milliseconds." },
        { "SW_TAPER_END", "Sweep trace taper length at end in milliseconds." },
        { "TAPER_TYPE", "Taper type: 1 = linear, 2 = cos^2, 3 = other." },
        { "ALIAS_FILT_FREQ", "Alias filter frequency (Hz), if used." },
        { "ALIAS_FILT_SLOPE", "Alias filter slope (dB/octave)." },
        { "NOTCH_FILT_FREQ", "Notch filter frequency (Hz), if used." },
        { "NOTCH_FILT_SLOPE", "Notch filter slope (dB/octave)." },
        { "LOW_CUT_FREQ", "Low-cut frequency (Hz), if used." },
        { "HIGH_CUT_FREQ", "High-cut frequency (Hz), if used." },
        { "LOW_CUT_SLOPE", "Low-cut slope (dB/octave)." },
        { "HIGH_CUT_SLOPE", "High-cut slope (dB/octave)." },
        { "YEAR", "Year data recorded." },
        { "DAY", "Day of year." },
        { "HOUR", "Hour of day." },
        { "MINUTE", "Minute of hour." },
        { "SECOND", "Second of minute." },
        { "TIME_BASIS_CODE", "Time basis code. 1 = local, 2 = GMT, 4 = UTC, 5 = GPS" },
        { "TRACE_WEIGHT", "Trace weighting factor. Defined as 2^-N." },
        { "GROUP_NUM_ROLL", "Geophone group number of roll switch position one." },
        { "GROUP_NUM_FIRST", "Geophone group number of trace number one within original field record." },
        { "GROUP_NUM_LAST", "Geophone group number of last trace within original field record." },
        { "GAP_SIZE", "Gap size (total number of groups dropped)." },
        { "OVER_TRAVEL", "Over travel associated with taper at beginning or end of line." },
        { "CDP_X", "X coordinate of ensemble (CDP) position." },
        { "CDP_Y", "Y coordinate of ensemble (CDP) position." },
        { "INLINE", "In-line number (for 3D)." },
        { "XLINE", "Cross-line number (for 3D)." },
        { "SP_NUM", "Shotpoint number. Shotpoint number refers to the source location nearest to CDP location" },
        { "SP_NUM_SCALAR", "Scalar to be applied to the SP_NUM." },
        { "TR_VAL_UNIT", "Trace value measurement unit. 1 = Pa, 2 = V, 3 = mV, 4 = A, 5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W" },
        { "TRANS_CONST", "Transduction Constant. Transforms trace samples to the Transduction Units" },
        { "TRANS_CONST_MANT", "Transduction Constant. Mantissa." },
        { "TRANS_CONST_EXP", "Transduction Constant. Power of ten exponent." },
        { "TRANS_UNITS", "Transduction Units. 1 = Pa, 2 = V, 3 = mV, 4 = A, 5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W" },
        { "DEVICE_ID", "Device/Trace Identifier. The unit number or id of the device associated with trace data." },
        { "TIME_SCALAR", "Scalar to be applied to upholes, statics, lags, delay and mutes." },
        { "SOURCE_TYPE", "Defines the type and the orientation of energy source." },
        { "SOU_V_DIR", "Source Energy Direction with respect to source orientation. Vertical." },
        { "SOU_X_DIR", "Source Energy Direction with respect to source orientation. Cross-line." },
        { "SOU_I_DIR", "Source Energy Direction with respect to source orientation. In-line." },
        { "SOURCE_MEASUREMENT", "Source Measurement. Describes the source effort used to generate the trace." },
        { "SOURCE_MEASUREMENT_MANT", "Source Measurement. Mantissa." },
        { "SOURCE_MEASUREMENT_EXP", "Source Measurement. Power of ten exponent." },
        { "SOU_MEAS_UNIT", "The unit used for the Source Measurement. 1 = J, 2 = kW, 3 = Pa, 4 = Bar, 5 = N, 6 = kg." },
        { "R_DEPTH", "Receiver group depth below the surface locacation of receiver group." },
        { "NANO_SECOND", "Nanoseconds to add to Second of minute." },
        { "NANOSECOND", "Nanoseconds to add to Second of minute." },
        { "CABLE_NUM", "Cable number for multi-cable acquisition or Recording Device/Sensor ID number." },
        { "ADD_TRC_HDR_NUM", "Number of additional trace header extension blocks including this one." },
        { "LAST_TRC_FLAG", "Last trace flag. 1 = in ensemble, 2 = in line, 4 = in file, 8 = in survey." },
    };
    return t;
}
