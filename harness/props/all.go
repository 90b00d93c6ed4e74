// Code generated by tools/gen_all.sh; DO NOT EDIT.

package props

func init() {
	All["C01_compare_raw"] = C01_compare_raw
	All["C01_compare_shapes"] = C01_compare_shapes
	All["C01_huge"] = C01_huge
	All["C01_long"] = C01_long
	All["C01_near"] = C01_near
	All["C01_raw"] = C01_raw
	All["C01_set"] = C01_set
	All["C01_shapes"] = C01_shapes
	All["C02_huge"] = C02_huge
	All["C02_near"] = C02_near
	All["C02_raw"] = C02_raw
	All["C02_set"] = C02_set
	All["C02_shapes"] = C02_shapes
	All["C03_huge"] = C03_huge
	All["C03_inserted"] = C03_inserted
	All["C03_joined"] = C03_joined
	All["C03_near"] = C03_near
	All["C03_outside"] = C03_outside
	All["C03_padded"] = C03_padded
	All["C03_raw"] = C03_raw
	All["C03_shapes"] = C03_shapes
	All["C04_date"] = C04_date
	All["C05_datetime"] = C05_datetime
	All["C06_alone"] = C06_alone
	All["C06_any"] = C06_any
	All["C06_bad"] = C06_bad
	All["C06_interior"] = C06_interior
	All["C06_mixed"] = C06_mixed
	All["C06_near"] = C06_near
	All["C06_plain"] = C06_plain
	All["C06_two"] = C06_two
	All["C07_openunknown"] = C07_openunknown
	All["C08_code"] = C08_code
	All["C08_feature"] = C08_feature
	All["C08_name"] = C08_name
	All["C09_feature"] = C09_feature
	All["C09_group"] = C09_group
	All["C09_individual"] = C09_individual
	All["C10_feature"] = C10_feature
	All["C10_interior"] = C10_interior
	All["C10_public"] = C10_public
	All["C11_exponential"] = C11_exponential
	All["C11_negative"] = C11_negative
	All["C11_prefixed"] = C11_prefixed
	All["C12_exponential"] = C12_exponential
	All["C12_plain"] = C12_plain
	All["C12_prefixed"] = C12_prefixed
	All["C13_bad"] = C13_bad
	All["C13_long"] = C13_long
	All["C13_many"] = C13_many
	All["C13_pair"] = C13_pair
	All["C13_range"] = C13_range
	All["C13_three"] = C13_three
	All["C14_days"] = C14_days
	All["C14_days_raw"] = C14_days_raw
	All["C14_days_string"] = C14_days_string
	All["C14_equal"] = C14_equal
	All["C14_time"] = C14_time
	All["C14_ymd_parts"] = C14_ymd_parts
	All["C14_ymd_raw"] = C14_ymd_raw
	All["C14_ymd_string"] = C14_ymd_string
	All["C14_ymd_text"] = C14_ymd_text
	All["C15_forms"] = C15_forms
	All["C15_set"] = C15_set
	All["C16_between"] = C16_between
	All["C16_between_shapes"] = C16_between_shapes
	All["C16_dates"] = C16_dates
	All["C16_errors"] = C16_errors
	All["C16_self"] = C16_self
	All["C16_shapes"] = C16_shapes
	All["C16_zones"] = C16_zones
	All["C17_marked"] = C17_marked
	All["C17_near"] = C17_near
	All["C17_raw"] = C17_raw
	All["C17_shapes"] = C17_shapes
	All["C18_built"] = C18_built
	All["C18_date"] = C18_date
	All["C18_result"] = C18_result
	All["C18_timestamp"] = C18_timestamp
	All["C19_history"] = C19_history
	All["C19_markers"] = C19_markers
	All["C19_state"] = C19_state
	All["C19_state_raw"] = C19_state_raw
	All["C19_state_results"] = C19_state_results
	All["C20_raw"] = C20_raw
	All["C20_shapes"] = C20_shapes
	All["C21_bits"] = C21_bits
	All["C21_history"] = C21_history
	All["C21_questions"] = C21_questions
	All["C21_values"] = C21_values
	All["C22_beyond"] = C22_beyond
	All["C22_kinds"] = C22_kinds
	All["C22_leading_x"] = C22_leading_x
	All["C22_not_set"] = C22_not_set
	All["C22_unrecognized"] = C22_unrecognized
	All["C22_unrecognized_near"] = C22_unrecognized_near
	All["C23_levels"] = C23_levels
	All["C23_levels_shapes"] = C23_levels_shapes
	All["C23_own"] = C23_own
	All["C23_own_near"] = C23_own_near
	All["C23_raw"] = C23_raw
	All["C24_matches"] = C24_matches
	All["C24_matches_near"] = C24_matches_near
	All["C24_matches_several"] = C24_matches_several
	All["C24_none"] = C24_none
	All["C24_parse"] = C24_parse
	All["C24_parse_near"] = C24_parse_near
	All["C24_parse_several"] = C24_parse_several
	All["C24_wasi"] = C24_wasi
	All["C25_bce"] = C25_bce
	All["C25_made"] = C25_made
	All["C25_near"] = C25_near
	All["C25_raw"] = C25_raw
	All["C25_shapes"] = C25_shapes
	All["C25_written"] = C25_written
}
