// Layout of the manufacturer extension blocks the library ships maps for,
// as XMaps: one list per 32-byte block.
#pragma once
#include "segd_ref.hpp"
namespace segd {
inline XMaps const golden_sercel_428xl {
    {
        { 0, "R_LINE", VT::uint24_t },
        { 3, "R_POINT", VT::uint24_t },
        { 6, "R_POINT_IDX", VT::uint8_t },
        { 7, "SAMP_NUM", VT::uint24_t },
        { 20, "SENSOR_TYPE", VT::uint8_t }
    },
    {
        { 0, "REC_X", VT::ieee_double },
        { 8, "REC_Y", VT::ieee_double },
        { 16, "R_ELEV", VT::ieee_single },
        { 20, "SERCEL_SENSOR_TYPE", VT::uint8_t },
        { 28, "TRACE_NUMBER", VT::uint32_t }
    },
    {
        { 0, "RESIST_LOW_LIMIT", VT::ieee_single },
        { 4, "RESIST_HIGH_LIMIT", VT::ieee_single },
        { 8, "RESIST_VALUE", VT::ieee_single },
        { 12, "TILT_LIMIT", VT::ieee_single },
        { 16, "TILT_VALUE", VT::ieee_single },
        { 20, "RESIST_ERROR", VT::uint8_t },
        { 21, "TILT_ERROR", VT::uint8_t },
    },
    {
        { 0, "CAPACIT_LOW_LIMIT", VT::ieee_single },
        { 4, "CAPACIT_HIGH_LIMIT", VT::ieee_single },
        { 8, "CAPACIT_VALUE", VT::ieee_single },
        { 12, "CUT_OFF_LOW_LIMIT", VT::ieee_single },
        { 16, "CUT_OFF_HIGH_LIMIT", VT::ieee_single },
        { 20, "CUT_OFF_VALUE", VT::ieee_single },
        { 24, "CAPACIT_ERROR", VT::uint8_t },
        { 25, "CUT_OFF_ERROR", VT::uint8_t }
    },
    {
        { 0, "LEAKAGE_LIMIT", VT::ieee_single },
        { 4, "LEAKAGE_VALUE", VT::ieee_single },
        { 24, "LEAKAGE_ERROR", VT::uint8_t }
    },
    {
        { 0, "UNIT_TYPE", VT::uint8_t },
        { 1, "UNIT_SERIAL_NUM", VT::uint24_t },
        { 4, "CHANNEL_NUM", VT::uint8_t },
        { 8, "FDU_ASS_TYPE", VT::uint8_t },
        { 9, "FDU_ASS_SERIAL", VT::uint24_t },
        { 12, "FDU_ASS_LOC", VT::uint8_t },
        { 16, "FDU_UNIT_TYPE", VT::uint8_t },
        { 17, "CHANNEL_TYPE", VT::uint8_t },
        { 20, "SENSOR_SENSITIVITY", VT::ieee_single }
    },
    {
        { 0, "CONTROL_UNIT_TYPE", VT::uint8_t },
        { 1, "CONTROL_UNIT_SERIAL", VT::uint24_t },
        { 4, "CHAN_GAIN_SCALE", VT::uint8_t },
        { 5, "CHAN_FILTER", VT::uint8_t },
        { 6, "CHAN_DATA_ERROR", VT::uint8_t },
        { 7, "CHAN_EDIT_STATUS", VT::uint8_t },
        { 8, "SAMP_TO_V_CONV", VT::ieee_single },
        { 12, "NUM_OF_STACKS_NOISY", VT::uint8_t },
        { 13, "NUM_OF_STACKS_LOW", VT::uint8_t },
        { 14, "CHAN_TYPE_ID", VT::uint8_t },
        { 15, "CHAN_PROCESS", VT::uint8_t },
        { 16, "TRC_MAX_VALUE", VT::ieee_single },
        { 20, "TRC_MAX_TIME", VT::uint32_t },
        { 24, "NUM_OF_INTERPOLAT", VT::uint32_t }
    }
};
inline XMaps const golden_sercel_428 {
    {
        { 0, "R_LINE", VT::uint24_t },
        { 3, "R_POINT", VT::uint24_t },
        { 6, "R_POINT_IDX", VT::uint8_t },
        { 7, "SAMP_NUM", VT::uint24_t },
        { 20, "SENSOR_TYPE", VT::uint8_t }
    },
    {
        { 0, "REC_X", VT::ieee_double },
        { 8, "REC_Y", VT::ieee_double },
        { 16, "R_ELEV", VT::ieee_single },
        { 20, "SERCEL_SENSOR_TYPE", VT::uint8_t },
        { 28, "TRACE_NUMBER", VT::uint32_t }
    },
    {
        { 0, "DC_OFFSET", VT::ieee_single }
    },
    {
        { 0, "CAPACIT_LOW_LIMIT", VT::ieee_single },
        { 4, "CAPACIT_HIGH_LIMIT", VT::ieee_single },
        { 8, "CAPACIT_VALUE", VT::ieee_single },
        { 12, "CUT_OFF_LOW_LIMIT", VT::ieee_single },
        { 16, "CUT_OFF_HIGH_LIMIT", VT::ieee_single },
        { 20, "CUT_OFF_VALUE", VT::ieee_single },
        { 24, "CAPACIT_ERROR", VT::uint8_t },
        { 25, "CUT_OFF_ERROR", VT::uint8_t }
    },
    {
        { 0, "LEAKAGE_LIMIT", VT::ieee_single },
        { 4, "LEAKAGE_VALUE", VT::ieee_single },
        { 24, "LEAKAGE_ERROR", VT::uint8_t }
    },
    {
        { 0, "UNIT_TYPE", VT::uint8_t },
        { 1, "UNIT_SERIAL_NUM", VT::uint24_t },
        { 4, "CHANNEL_NUM", VT::uint8_t },
        { 8, "FDU_ASS_TYPE", VT::uint8_t },
        { 9, "FDU_ASS_SERIAL", VT::uint24_t },
        { 12, "FDU_ASS_LOC", VT::uint8_t },
        { 16, "FDU_UNIT_TYPE", VT::uint8_t },
        { 20, "SENSOR_SENSITIVITY", VT::ieee_single },
        { 24, "EXT_UNIT_SERIAL", VT::uint32_t },
        { 28, "EXT_FDU_ASS_SERIAL", VT::uint32_t }
    },
    {
        { 0, "CONTROL_UNIT_TYPE", VT::uint8_t },
        { 1, "CONTROL_UNIT_SERIAL", VT::uint24_t },
        { 4, "CHAN_GAIN_SCALE", VT::uint8_t },
        { 5, "CHAN_FILTER", VT::uint8_t },
        { 6, "CHAN_DATA_ERROR", VT::uint8_t },
        { 7, "CHAN_EDIT_STATUS", VT::uint8_t },
        { 8, "SAMP_TO_V_CONV", VT::ieee_single },
        { 13, "REMOVED_OFFSET", VT::uint8_t },
        { 14, "CHAN_TYPE_ID", VT::uint8_t },
        { 15, "CHAN_PROCESS", VT::uint8_t },
        { 16, "ANAL_LOW_CUR_FILT", VT::ieee_single },
        { 20, "DIG_LOW_CUT_FILT", VT::ieee_single },
        { 24, "NUM_OF_EDITIONS", VT::uint32_t },
        { 28, "COMP_LOW_CUT_FILT", VT::ieee_single }
    }
};
inline XMaps const golden_sercel_408 {
    {
        { 0, "R_LINE", VT::uint24_t },
        { 3, "R_POINT", VT::uint24_t },
        { 6, "R_POINT_IDX", VT::uint8_t },
        { 7, "SAMP_NUM", VT::uint24_t },
        { 20, "SENSOR_TYPE", VT::uint8_t }
    },
    {
        { 0, "REC_X", VT::ieee_double },
        { 8, "REC_Y", VT::ieee_double },
        { 16, "R_ELEV", VT::ieee_single },
        { 20, "SERCEL_SENSOR_TYPE", VT::uint8_t }
    },
    {
        { 0, "DC_OFFSET", VT::ieee_single }
    },
    {
        { 0, "CAPACIT_LOW_LIMIT", VT::ieee_single },
        { 4, "CAPACIT_HIGH_LIMIT", VT::ieee_single },
        { 8, "CAPACIT_VALUE", VT::ieee_single },
        { 12, "CUT_OFF_LOW_LIMIT", VT::ieee_single },
        { 16, "CUT_OFF_HIGH_LIMIT", VT::ieee_single },
        { 20, "CUT_OFF_VALUE", VT::ieee_single },
        { 24, "CAPACIT_ERROR", VT::uint8_t },
        { 25, "CUT_OFF_ERROR", VT::uint8_t }
    },
    {
        { 0, "LEAKAGE_LIMIT", VT::ieee_single },
        { 4, "LEAKAGE_VALUE", VT::ieee_single },
        { 24, "LEAKAGE_ERROR", VT::uint8_t }
    },
    {
        { 0, "UNIT_TYPE", VT::uint8_t },
        { 1, "UNIT_SERIAL_NUM", VT::uint24_t },
        { 4, "CHANNEL_NUM", VT::uint8_t },
        { 8, "FDU_ASS_TYPE", VT::uint8_t },
        { 9, "FDU_ASS_SERIAL", VT::uint24_t },
        { 12, "FDU_ASS_LOC", VT::uint8_t },
        { 16, "FDU_UNIT_TYPE", VT::uint8_t },
        { 17, "CHANNEL_TYPE", VT::uint8_t },
        { 20, "SENSOR_SENSITIVITY", VT::ieee_single }
    },
    {
        { 0, "CONTROL_UNIT_TYPE", VT::uint8_t },
        { 1, "CONTROL_UNIT_SERIAL", VT::uint24_t },
        { 4, "CHAN_GAIN_SCALE", VT::uint8_t },
        { 5, "CHAN_FILTER", VT::uint8_t },
        { 6, "CHAN_DATA_ERROR", VT::uint8_t },
        { 7, "CHAN_EDIT_STATUS", VT::uint8_t },
        { 8, "SAMP_TO_V_CONV", VT::ieee_single },
        { 14, "CHAN_TYPE_ID", VT::uint8_t },
        { 15, "CHAN_PROCESS", VT::uint8_t },
        { 16, "TRC_MAX_VALUE", VT::ieee_single },
        { 20, "TRC_MAX_TIME", VT::uint32_t },
        { 24, "NUM_OF_INTERPOLAT", VT::uint32_t },
        { 28, "COMP_LOW_CUT_FILT", VT::ieee_single }
    }
};
} // namespace segd
