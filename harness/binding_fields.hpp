// Public fields of the header classes: F numbers, T texts.
F(CommonSEGY, BinaryHeader, job_id)
F(CommonSEGY, BinaryHeader, line_num)
F(CommonSEGY, BinaryHeader, reel_num)
F(CommonSEGY, BinaryHeader, tr_per_ens)
F(CommonSEGY, BinaryHeader, aux_per_ens)
F(CommonSEGY, BinaryHeader, samp_int)
F(CommonSEGY, BinaryHeader, samp_int_orig)
F(CommonSEGY, BinaryHeader, samp_per_tr)
F(CommonSEGY, BinaryHeader, samp_per_tr_orig)
F(CommonSEGY, BinaryHeader, format_code)
F(CommonSEGY, BinaryHeader, ens_fold)
F(CommonSEGY, BinaryHeader, sort_code)
F(CommonSEGY, BinaryHeader, vert_sum_code)
F(CommonSEGY, BinaryHeader, sw_freq_at_start)
F(CommonSEGY, BinaryHeader, sw_freq_at_end)
F(CommonSEGY, BinaryHeader, sw_length)
F(CommonSEGY, BinaryHeader, sw_type_code)
F(CommonSEGY, BinaryHeader, sw_ch_tr_num)
F(CommonSEGY, BinaryHeader, taper_at_start)
F(CommonSEGY, BinaryHeader, taper_at_end)
F(CommonSEGY, BinaryHeader, taper_type)
F(CommonSEGY, BinaryHeader, corr_traces)
F(CommonSEGY, BinaryHeader, bin_gain_recov)
F(CommonSEGY, BinaryHeader, amp_recov_meth)
F(CommonSEGY, BinaryHeader, measure_system)
F(CommonSEGY, BinaryHeader, impulse_sig_pol)
F(CommonSEGY, BinaryHeader, vib_pol_code)
F(CommonSEGY, BinaryHeader, ext_tr_per_ens)
F(CommonSEGY, BinaryHeader, ext_aux_per_ens)
F(CommonSEGY, BinaryHeader, ext_samp_per_tr)
F(CommonSEGY, BinaryHeader, ext_samp_int)
F(CommonSEGY, BinaryHeader, ext_samp_int_orig)
F(CommonSEGY, BinaryHeader, ext_samp_per_tr_orig)
F(CommonSEGY, BinaryHeader, ext_ens_fold)
F(CommonSEGY, BinaryHeader, endianness)
F(CommonSEGY, BinaryHeader, SEGY_rev_major_ver)
F(CommonSEGY, BinaryHeader, SEGY_rev_minor_ver)
F(CommonSEGY, BinaryHeader, fixed_tr_length)
F(CommonSEGY, BinaryHeader, ext_text_headers_num)
F(CommonSEGY, BinaryHeader, max_num_add_tr_headers)
F(CommonSEGY, BinaryHeader, time_basis_code)
F(CommonSEGY, BinaryHeader, num_of_tr_in_file)
F(CommonSEGY, BinaryHeader, byte_off_of_first_tr)
F(CommonSEGY, BinaryHeader, num_of_trailer_stanza)
F(CommonSEGD, GeneralHeader, file_number)
F(CommonSEGD, GeneralHeader, format_code)
F(CommonSEGD, GeneralHeader, gen_const)
F(CommonSEGD, GeneralHeader, year)
F(CommonSEGD, GeneralHeader, add_gen_hdr_blocks)
F(CommonSEGD, GeneralHeader, day)
F(CommonSEGD, GeneralHeader, hour)
F(CommonSEGD, GeneralHeader, minute)
F(CommonSEGD, GeneralHeader, second)
F(CommonSEGD, GeneralHeader, manufac_code)
F(CommonSEGD, GeneralHeader, manufac_num)
F(CommonSEGD, GeneralHeader, bytes_per_scan)
F(CommonSEGD, GeneralHeader, base_scan_int)
F(CommonSEGD, GeneralHeader, polarity)
F(CommonSEGD, GeneralHeader, scans_per_block)
F(CommonSEGD, GeneralHeader, record_type)
F(CommonSEGD, GeneralHeader, record_length)
F(CommonSEGD, GeneralHeader, scan_types_per_record)
F(CommonSEGD, GeneralHeader, channel_sets_per_scan_type)
F(CommonSEGD, GeneralHeader, skew_blocks)
F(CommonSEGD, GeneralHeader, extended_hdr_blocks)
F(CommonSEGD, GeneralHeader, external_hdr_blocks)
F(CommonSEGD, GeneralHeader2, expanded_file_num)
F(CommonSEGD, GeneralHeader2, ext_ch_sets_per_scan_type)
F(CommonSEGD, GeneralHeader2, extended_hdr_blocks)
F(CommonSEGD, GeneralHeader2, external_hdr_blocks)
F(CommonSEGD, GeneralHeader2, extended_skew_blocks)
F(CommonSEGD, GeneralHeader2, segd_rev_major)
F(CommonSEGD, GeneralHeader2, segd_rev_minor)
F(CommonSEGD, GeneralHeader2, gen_trailer_num_of_blocks)
F(CommonSEGD, GeneralHeader2, ext_record_len)
F(CommonSEGD, GeneralHeader2, record_set_number)
F(CommonSEGD, GeneralHeader2, ext_num_add_blks_in_gen_hdr)
F(CommonSEGD, GeneralHeader2, dominant_sampling_int)
F(CommonSEGD, GeneralHeader2, gen_hdr_block_num)
F(CommonSEGD, GeneralHeader2, sequence_number)
F(CommonSEGD, GeneralHeaderN, expanded_file_number)
F(CommonSEGD, GeneralHeaderN, sou_line_num)
F(CommonSEGD, GeneralHeaderN, sou_point_num)
F(CommonSEGD, GeneralHeaderN, sou_point_index)
F(CommonSEGD, GeneralHeaderN, phase_control)
F(CommonSEGD, GeneralHeaderN, type_vibrator)
F(CommonSEGD, GeneralHeaderN, phase_angle)
F(CommonSEGD, GeneralHeaderN, gen_hdr_block_num)
F(CommonSEGD, GeneralHeaderN, sou_set_num)
F(CommonSEGD, GeneralHeader3, time_zero)
F(CommonSEGD, GeneralHeader3, record_size)
F(CommonSEGD, GeneralHeader3, data_size)
F(CommonSEGD, GeneralHeader3, header_size)
F(CommonSEGD, GeneralHeader3, extd_rec_mode)
F(CommonSEGD, GeneralHeader3, rel_time_mode)
F(CommonSEGD, GeneralHeader3, gen_hdr_block_num)
T(CommonSEGD, GeneralHeaderVes, abbr_vessel_crew_name)
T(CommonSEGD, GeneralHeaderVes, vessel_crew_name)
F(CommonSEGD, GeneralHeaderVes, gen_hdr_block_type)
T(CommonSEGD, GeneralHeaderSur, survey_area_name)
F(CommonSEGD, GeneralHeaderSur, gen_hdr_block_type)
T(CommonSEGD, GeneralHeaderCli, client_name)
F(CommonSEGD, GeneralHeaderCli, gen_hdr_block_type)
T(CommonSEGD, GeneralHeaderJob, abbr_job_id)
T(CommonSEGD, GeneralHeaderJob, job_id)
F(CommonSEGD, GeneralHeaderJob, gen_hdr_block_type)
T(CommonSEGD, GeneralHeaderLin, line_abbr)
T(CommonSEGD, GeneralHeaderLin, line_id)
F(CommonSEGD, GeneralHeaderLin, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderVib, expanded_file_number)
F(CommonSEGD, GeneralHeaderVib, sou_line_num)
F(CommonSEGD, GeneralHeaderVib, sou_point_num)
F(CommonSEGD, GeneralHeaderVib, sou_point_index)
F(CommonSEGD, GeneralHeaderVib, phase_control)
F(CommonSEGD, GeneralHeaderVib, type_vibrator)
F(CommonSEGD, GeneralHeaderVib, phase_angle)
F(CommonSEGD, GeneralHeaderVib, source_id)
F(CommonSEGD, GeneralHeaderVib, source_set_num)
F(CommonSEGD, GeneralHeaderVib, reshoot_idx)
F(CommonSEGD, GeneralHeaderVib, group_idx)
F(CommonSEGD, GeneralHeaderVib, depth_idx)
F(CommonSEGD, GeneralHeaderVib, offset_crossline)
F(CommonSEGD, GeneralHeaderVib, offset_inline)
F(CommonSEGD, GeneralHeaderVib, size)
F(CommonSEGD, GeneralHeaderVib, offset_depth)
F(CommonSEGD, GeneralHeaderVib, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderExp, expanded_file_number)
F(CommonSEGD, GeneralHeaderExp, sou_line_num)
F(CommonSEGD, GeneralHeaderExp, sou_point_num)
F(CommonSEGD, GeneralHeaderExp, sou_point_index)
F(CommonSEGD, GeneralHeaderExp, depth)
F(CommonSEGD, GeneralHeaderExp, charge_length)
F(CommonSEGD, GeneralHeaderExp, soil_type)
F(CommonSEGD, GeneralHeaderExp, source_id)
F(CommonSEGD, GeneralHeaderExp, source_set_num)
F(CommonSEGD, GeneralHeaderExp, reshoot_idx)
F(CommonSEGD, GeneralHeaderExp, group_idx)
F(CommonSEGD, GeneralHeaderExp, depth_idx)
F(CommonSEGD, GeneralHeaderExp, offset_crossline)
F(CommonSEGD, GeneralHeaderExp, offset_inline)
F(CommonSEGD, GeneralHeaderExp, size)
F(CommonSEGD, GeneralHeaderExp, offset_depth)
F(CommonSEGD, GeneralHeaderExp, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderAir, expanded_file_number)
F(CommonSEGD, GeneralHeaderAir, sou_line_num)
F(CommonSEGD, GeneralHeaderAir, sou_point_num)
F(CommonSEGD, GeneralHeaderAir, sou_point_index)
F(CommonSEGD, GeneralHeaderAir, depth)
F(CommonSEGD, GeneralHeaderAir, air_pressure)
F(CommonSEGD, GeneralHeaderAir, source_id)
F(CommonSEGD, GeneralHeaderAir, source_set_num)
F(CommonSEGD, GeneralHeaderAir, reshoot_idx)
F(CommonSEGD, GeneralHeaderAir, group_idx)
F(CommonSEGD, GeneralHeaderAir, depth_idx)
F(CommonSEGD, GeneralHeaderAir, offset_crossline)
F(CommonSEGD, GeneralHeaderAir, offset_inline)
F(CommonSEGD, GeneralHeaderAir, size)
F(CommonSEGD, GeneralHeaderAir, offset_depth)
F(CommonSEGD, GeneralHeaderAir, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderWat, expanded_file_number)
F(CommonSEGD, GeneralHeaderWat, sou_line_num)
F(CommonSEGD, GeneralHeaderWat, sou_point_num)
F(CommonSEGD, GeneralHeaderWat, sou_point_index)
F(CommonSEGD, GeneralHeaderWat, depth)
F(CommonSEGD, GeneralHeaderWat, air_pressure)
F(CommonSEGD, GeneralHeaderWat, source_id)
F(CommonSEGD, GeneralHeaderWat, source_set_num)
F(CommonSEGD, GeneralHeaderWat, reshoot_idx)
F(CommonSEGD, GeneralHeaderWat, group_idx)
F(CommonSEGD, GeneralHeaderWat, depth_idx)
F(CommonSEGD, GeneralHeaderWat, offset_crossline)
F(CommonSEGD, GeneralHeaderWat, offset_inline)
F(CommonSEGD, GeneralHeaderWat, size)
F(CommonSEGD, GeneralHeaderWat, offset_depth)
F(CommonSEGD, GeneralHeaderWat, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderEle, expanded_file_number)
F(CommonSEGD, GeneralHeaderEle, sou_line_num)
F(CommonSEGD, GeneralHeaderEle, sou_point_num)
F(CommonSEGD, GeneralHeaderEle, sou_point_index)
F(CommonSEGD, GeneralHeaderEle, source_type)
F(CommonSEGD, GeneralHeaderEle, moment)
F(CommonSEGD, GeneralHeaderEle, source_id)
F(CommonSEGD, GeneralHeaderEle, source_set_num)
F(CommonSEGD, GeneralHeaderEle, reshoot_idx)
F(CommonSEGD, GeneralHeaderEle, group_idx)
F(CommonSEGD, GeneralHeaderEle, depth_idx)
F(CommonSEGD, GeneralHeaderEle, offset_crossline)
F(CommonSEGD, GeneralHeaderEle, offset_inline)
F(CommonSEGD, GeneralHeaderEle, size)
F(CommonSEGD, GeneralHeaderEle, offset_depth)
F(CommonSEGD, GeneralHeaderEle, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderOth, expanded_file_number)
F(CommonSEGD, GeneralHeaderOth, sou_line_num)
F(CommonSEGD, GeneralHeaderOth, sou_point_num)
F(CommonSEGD, GeneralHeaderOth, sou_point_index)
F(CommonSEGD, GeneralHeaderOth, source_id)
F(CommonSEGD, GeneralHeaderOth, source_set_num)
F(CommonSEGD, GeneralHeaderOth, reshoot_idx)
F(CommonSEGD, GeneralHeaderOth, group_idx)
F(CommonSEGD, GeneralHeaderOth, depth_idx)
F(CommonSEGD, GeneralHeaderOth, offset_crossline)
F(CommonSEGD, GeneralHeaderOth, offset_inline)
F(CommonSEGD, GeneralHeaderOth, size)
F(CommonSEGD, GeneralHeaderOth, offset_depth)
F(CommonSEGD, GeneralHeaderOth, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderAdd, time)
F(CommonSEGD, GeneralHeaderAdd, source_status)
F(CommonSEGD, GeneralHeaderAdd, source_id)
F(CommonSEGD, GeneralHeaderAdd, source_moving)
T(CommonSEGD, GeneralHeaderAdd, error_description)
F(CommonSEGD, GeneralHeaderAdd, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderSaux, source_id)
F(CommonSEGD, GeneralHeaderSaux, scan_type_num_1)
F(CommonSEGD, GeneralHeaderSaux, ch_set_num_1)
F(CommonSEGD, GeneralHeaderSaux, trace_num_1)
F(CommonSEGD, GeneralHeaderSaux, scan_type_num_2)
F(CommonSEGD, GeneralHeaderSaux, ch_set_num_2)
F(CommonSEGD, GeneralHeaderSaux, trace_num_2)
F(CommonSEGD, GeneralHeaderSaux, scan_type_num_3)
F(CommonSEGD, GeneralHeaderSaux, ch_set_num_3)
F(CommonSEGD, GeneralHeaderSaux, trace_num_3)
F(CommonSEGD, GeneralHeaderSaux, scan_type_num_4)
F(CommonSEGD, GeneralHeaderSaux, ch_set_num_4)
F(CommonSEGD, GeneralHeaderSaux, trace_num_4)
F(CommonSEGD, GeneralHeaderSaux, scan_type_num_5)
F(CommonSEGD, GeneralHeaderSaux, ch_set_num_5)
F(CommonSEGD, GeneralHeaderSaux, trace_num_5)
F(CommonSEGD, GeneralHeaderSaux, gen_hdr_block_type)
T(CommonSEGD, GeneralHeaderCoord, crs)
F(CommonSEGD, GeneralHeaderCoord, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderPos1, time_of_position)
F(CommonSEGD, GeneralHeaderPos1, time_of_measurement)
F(CommonSEGD, GeneralHeaderPos1, vert_error)
F(CommonSEGD, GeneralHeaderPos1, hor_error_semi_major)
F(CommonSEGD, GeneralHeaderPos1, hor_error_semi_minor)
F(CommonSEGD, GeneralHeaderPos1, hor_error_orientation)
F(CommonSEGD, GeneralHeaderPos1, position_type)
F(CommonSEGD, GeneralHeaderPos1, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderPos2, crs_a_coord1)
F(CommonSEGD, GeneralHeaderPos2, crs_a_coord2)
F(CommonSEGD, GeneralHeaderPos2, crs_a_coord3)
F(CommonSEGD, GeneralHeaderPos2, crs_a_crsref)
F(CommonSEGD, GeneralHeaderPos2, pos1_valid)
F(CommonSEGD, GeneralHeaderPos2, pos1_quality)
F(CommonSEGD, GeneralHeaderPos2, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderPos3, crs_b_coord1)
F(CommonSEGD, GeneralHeaderPos3, crs_b_coord2)
F(CommonSEGD, GeneralHeaderPos3, crs_b_coord3)
F(CommonSEGD, GeneralHeaderPos3, crs_b_crsref)
F(CommonSEGD, GeneralHeaderPos3, pos2_valid)
F(CommonSEGD, GeneralHeaderPos3, pos2_quality)
F(CommonSEGD, GeneralHeaderPos3, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderRel, offset_east)
F(CommonSEGD, GeneralHeaderRel, offset_north)
F(CommonSEGD, GeneralHeaderRel, offset_vert)
T(CommonSEGD, GeneralHeaderRel, description)
F(CommonSEGD, GeneralHeaderRel, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderSen, instrument_test_time)
F(CommonSEGD, GeneralHeaderSen, sensor_sensitivity)
F(CommonSEGD, GeneralHeaderSen, instr_test_result)
T(CommonSEGD, GeneralHeaderSen, serial_number)
F(CommonSEGD, GeneralHeaderSen, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderSCa, freq1)
F(CommonSEGD, GeneralHeaderSCa, amp1)
F(CommonSEGD, GeneralHeaderSCa, phase1)
F(CommonSEGD, GeneralHeaderSCa, freq2)
F(CommonSEGD, GeneralHeaderSCa, amp2)
F(CommonSEGD, GeneralHeaderSCa, phase2)
F(CommonSEGD, GeneralHeaderSCa, calib_applied)
F(CommonSEGD, GeneralHeaderSCa, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderTim, time_of_depl)
F(CommonSEGD, GeneralHeaderTim, time_of_retr)
F(CommonSEGD, GeneralHeaderTim, timer_offset_depl)
F(CommonSEGD, GeneralHeaderTim, time_offset_retr)
F(CommonSEGD, GeneralHeaderTim, timedrift_corr)
F(CommonSEGD, GeneralHeaderTim, corr_method)
F(CommonSEGD, GeneralHeaderTim, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderElSR, equip_dim_x)
F(CommonSEGD, GeneralHeaderElSR, equip_dim_y)
F(CommonSEGD, GeneralHeaderElSR, equip_dim_z)
F(CommonSEGD, GeneralHeaderElSR, pos_term)
F(CommonSEGD, GeneralHeaderElSR, equip_offset_x)
F(CommonSEGD, GeneralHeaderElSR, equip_offset_y)
F(CommonSEGD, GeneralHeaderElSR, equip_offset_z)
F(CommonSEGD, GeneralHeaderElSR, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderOri, rot_x)
F(CommonSEGD, GeneralHeaderOri, rot_y)
F(CommonSEGD, GeneralHeaderOri, rot_z)
F(CommonSEGD, GeneralHeaderOri, ref_orientation)
F(CommonSEGD, GeneralHeaderOri, time_stamp)
F(CommonSEGD, GeneralHeaderOri, ori_type)
F(CommonSEGD, GeneralHeaderOri, ref_orient_valid)
F(CommonSEGD, GeneralHeaderOri, rot_applied)
F(CommonSEGD, GeneralHeaderOri, rot_north_applied)
F(CommonSEGD, GeneralHeaderOri, gen_hdr_block_type)
F(CommonSEGD, GeneralHeaderMeas, timestamp)
F(CommonSEGD, GeneralHeaderMeas, measurement_value)
F(CommonSEGD, GeneralHeaderMeas, maximum_value)
F(CommonSEGD, GeneralHeaderMeas, minimum_value)
F(CommonSEGD, GeneralHeaderMeas, quantity_class)
F(CommonSEGD, GeneralHeaderMeas, unit_of_measure)
F(CommonSEGD, GeneralHeaderMeas, measurement_description)
F(CommonSEGD, GeneralHeaderMeas, gen_hdr_block_type)
F(CommonSEGD, ChannelSetHeader, scan_type_number)
F(CommonSEGD, ChannelSetHeader, channel_set_number)
F(CommonSEGD, ChannelSetHeader, channel_type)
F(CommonSEGD, ChannelSetHeader, channel_set_start_time)
F(CommonSEGD, ChannelSetHeader, channel_set_end_time)
F(CommonSEGD, ChannelSetHeader, descale_multiplier)
F(CommonSEGD, ChannelSetHeader, number_of_channels)
F(CommonSEGD, ChannelSetHeader, subscans_per_ch_set)
F(CommonSEGD, ChannelSetHeader, channel_gain)
F(CommonSEGD, ChannelSetHeader, alias_filter_freq)
F(CommonSEGD, ChannelSetHeader, alias_filter_slope)
F(CommonSEGD, ChannelSetHeader, low_cut_filter_freq)
F(CommonSEGD, ChannelSetHeader, low_cut_filter_slope)
F(CommonSEGD, ChannelSetHeader, first_notch_filter)
F(CommonSEGD, ChannelSetHeader, second_notch_filter)
F(CommonSEGD, ChannelSetHeader, third_notch_filter)
F(CommonSEGD, ChannelSetHeader, ext_ch_set_num)
F(CommonSEGD, ChannelSetHeader, ext_hdr_flag)
F(CommonSEGD, ChannelSetHeader, trc_hdr_ext)
F(CommonSEGD, ChannelSetHeader, vert_stack)
F(CommonSEGD, ChannelSetHeader, streamer_no)
F(CommonSEGD, ChannelSetHeader, array_forming)
