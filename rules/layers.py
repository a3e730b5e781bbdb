"""Contract layer of each property: the functions whose reviewed guarded effects carry the property.
property -> [(crate, [patterns over 'Type::fn' / 'module::fn'], floor on the number of functions)]"""
import eff

L = {
    "C02": [("bladeink", [r"(^|::)(write_json|load_json|load_json_obj|to_json|from_json|load_flow_choice_threads)$", r"^json_write::", r"^json_read::(jobject|jarray|jtoken|jobjects)", r"^VariablesState::(val_equal|set_callstack)$", r"^Story::(save_state|load_state|pointer_at_path)$", r"^(Choice|Thread|Pointer|Path|InkList)::(get_thread_at_generation|set_thread_at_generation|get_path|get_components_string|new_with_components_string|set_initial_origin_names|get_thread_with_index)$", r"^CallStack::get_thread_with_index$", r"^PushPopType::"], 25)],
    "C13": [("bladeink", [r"^Story::(add_error|continue_internal|continue_async|reset_errors|has_error|get_current_errors|get_current_warnings|set_error_handler|can_continue|cont)$",
                          r"^StoryState::(add_error|has_error|has_warning|get_current_errors|get_current_warnings|reset_errors|reset_warnings|force_end|can_continue)$"], 15),
            ("rinklecate", [r"StoryErrors", r"^player::flush_messages$"], 3)],
    "C12": [("bladeink", [r"external", r"^Story::(continue_async|continue_single_step|knot_container_with_name|restore_state_snapshot|state_snapshot|discard_snapshot|calculate_newline_output_state_change)$", r"^StoryState::(in_string_evaluation|pop_evaluation_stack|push_evaluation_stack|restore_after_patch|apply_any_patch|copy_and_start_patching)$"], 15),
            ("bladeink_compiler", [r"emitter::emit_call_argument"], 1)],
    "C17": [("bladeink", [r"^Story::(new|new_impl|reset_state|reset_globals|reset_callstack|choose_path|choose_path_string|set_story_seed|restore_state_snapshot|discard_snapshot|visit_changed_containers_due_to_divert|continue_internal)$",
                          r"^StoryState::(new|force_end|set_chosen_path|go_to_start|reset_errors|set_current_pointer|set_previous_pointer|check_arguments|pass_arguments_to_evaluation_stack)$",
                          r"^CallStack::(new|reset|clone)$", r"^Flow::new$", r"^VariablesState::(new|snapshot_default_globals)$", r"^Element::new$", r"^Thread::new$"], 20)],
    "C16": [("bladeink", [r"^Story::(evaluate_function|has_function|knot_container_with_name|cont|continue_single_step|call_external_function)$",
                          r"^StoryState::(start_function_evaluation_from_game|complete_function_evaluation_from_game|check_arguments|pass_arguments_to_evaluation_stack|try_exit_function_evaluation_from_game|reset_output|trim_whitespace_from_function_end|pop_callstack|output_stream_dirty|pop_evaluation_stack|push_evaluation_stack|set_previous_pointer|set_current_pointer|get_current_text|get_current_tags|push_to_output_stream.*)$",
                          r"^CallStack::(push|pop|can_pop.*|element_is_evaluate_from_game|get_current_element.*)$", r"^Element::new$"], 18)],
    "C11": [("bladeink", [r"^Story::(observe_variable|remove_variable_observer|notify_variable_changed|set_variable|continue_internal|restore_state_snapshot|discard_snapshot|state_snapshot|reset_state|load_state)$",
                          r"^VariablesState::(set|set_global|assign|start_variable_observation|complete_variable_observation|apply_patch|set_callstack|variable_is_declared|global_variable_exists_with_name|get|get_variable_with_name|get_raw_variable_with_name|resolve_variable_pointer|clone)$",
                          r"^StatePatch::", r"^StoryState::(copy_and_start_patching|apply_any_patch|restore_after_patch)$"], 22)],
    "C09": [("bladeink", [r"^Story::(choose_choice_index|get_current_choices|bind_external_function|unbind_external_function|switch_flow|remove_flow|switch_to_default_flow|choose_path_string|evaluate_function|get_visit_count_at_path_string|set_variable|get_variable|observe_variable|remove_variable_observer|cont|continue_maximally|continue_async|continue_internal|can_continue|if_async_we_cant|get_current_text|get_current_tags|tags_at_start_of_flow_container_with_path_string|content_at_path|knot_container_with_name|load_state|reset_state|reset_callstack|validate_external_bindings|pointer_at_path)$",
                          r"^VariablesState::(set|get)$", r"^StoryState::(remove_flow_internal|switch_flow_internal|switch_to_default_flow_internal|check_arguments|can_continue|visit_count_at_path_string|set_chosen_path|get_generated_choices|get_current_choices)$", r"^Container::(content_at_path|content_with_path_component)$"], 35)],
    "C08": [("bladeink", [r"^Story::(continue_internal|continue_async|continue_maximally|cont|continue_single_step|if_async_we_cant|can_continue|restore_state_snapshot|discard_snapshot|state_snapshot|calculate_newline_output_state_change|reset_errors|add_error|get_current_text|get_current_tags|call_external_function|try_follow_default_invisible_choice)$",
                          r"^StoryState::(copy_and_start_patching|apply_any_patch|restore_after_patch|reset_output|reset_warnings|reset_errors|in_string_evaluation|output_stream_ends_in_newline|output_stream_dirty|get_current_text|get_current_tags|can_continue|apply_count_changes|increment_visit_count_for_container|record_turn_index_visit_to_container|visit_count_for_container|turns_since_for_container)$",
                          r"^VariablesState::(apply_patch|start_variable_observation|complete_variable_observation|set_global|clone)$", r"^StatePatch::"], 28)],
    "C10": [("bladeink", [r"^Story::(switch_flow|remove_flow|switch_to_default_flow|state_snapshot|restore_state_snapshot|discard_snapshot|reset_callstack)$",
                          r"^StoryState::(new|switch_flow_internal|remove_flow_internal|switch_to_default_flow_internal|copy_and_start_patching|restore_after_patch|apply_any_patch|write_json|load_json_obj|get_callstack|get_output_stream.*|get_generated_choices.*|get_current_choices|output_stream_dirty|set_chosen_path|force_end|go_to_start)$",
                          r"^Flow::", r"^CallStack::", r"^Thread::", r"^Element::", r"^<(CallStack|Thread|Element|Flow) as Clone>::clone$", r"^VariablesState::(set_callstack|clone|assign|get_variable_with_name|get_raw_variable_with_name|get_context_index_of_variable_named)$"], 50)],
    "C07": [("bladeink", [r"^NativeFunctionCall::", r"^<?(InkList|InkListItem)\b", r"^ListDefinition(sOrigin)?::", r"^Value::(cast|is_truthy|get_cast_ordinal|get_value|retain_list_origins_for_assignment|new.*)$", r"^ValueType::", r"^<&?(StringValue|VariablePointerValue|Value|ValueType) as ", r"^<value_type::ValueType as ", r"^value_type::<impl ",
                          r"^StoryState::(push_evaluation_stack|pop_evaluation_stack.*)$"], 80),
            ("bladeink_compiler", [r"^expression::", r"^ExpressionParser::", r"^emitter::(emit_expression.*|emit_call_argument|expression_has_function_call|emit_dynamic_string.*)$"], 15)],
    "C14": [("bladeink", [r"^json_read(_stream)?::(?!jobject_to|tests)", r"^(JsonTokenizer|Number|JsonValue|ArrayElement)::", r"^(ControlCommand|NativeFunctionCall)::new_from_name$", r"^(ListDefinition|ListDefinitionsOrigin|Container|Divert|ChoicePoint|VariableReference|VariableAssignment|Tag|Glue|Void|InkList|InkListItem|Path|Component|Value|VariablePointerValue)::(new.*|from_.*|set_initial_origin_names|add_to_.*)$", r"^<StringValue as .*$", r"^Story::new$"], 40)],
    # the interpreter and the compiler, whole: what is compared is what each function does to a story, not how
    "C01": [("bladeink", [r"^Story::(choose_choice_index|choose_path|process_choice|try_follow_default_invisible_choice|pop_choice_string_and_tags|perform_logic_and_flow_control|next_sequence_shuffle_index|is_truthy|step|next_content|increment_content_pointer|visit_container|visit_changed_containers_due_to_divert|calculate_newline_output_state_change|continue_single_step|continue_internal|cont|can_continue|get_current_choices|get_current_text|get_current_tags|get_main_content_container|pointer_at_path|content_at_path|restore_state_snapshot|discard_snapshot|state_snapshot)$",
                          r"^StoryState::(?!new$|to_json|write_json|load_json|load_json_obj|remove_flow_internal|switch_|add_error|reset_errors|reset_warnings|has_|get_current_(errors|warnings)|start_function|complete_function|check_arg)", r"^(CallStack|Thread|Element)::(?!from_json|write_json|load_json|get_callstack_trace)",
                          r"^VariablesState::(?!write_json|load_json|val_equal|set_callstack|start_variable|complete_variable|snapshot_default)", r"^StatePatch::", r"^Container::", r"^(Divert|ChoicePoint|VariableReference|Pointer|Choice|Tag|Glue)::", r"^Path::", r"^Value::is_truthy$"], 120),
            ("bladeink_compiler", [r"^(?!<|stats::|Stats::|resolve::|CompilerError::|ValidationContext::validate_(flow_name|stitch_name|temp_names|flow_parameter_names)|nesting::|Nesting::)"], 200)],
    "C20": [("rinklecate", [r"^player::", r"^compiler_tool::", r"^(main|run|parse_arguments|change_extension)$", r"StoryErrors"], 14)],
}


def check(ctx):
    for crate, pats, floor in L.get(ctx.pid, []):
        eff.contracts(ctx, f"contract:{crate}", crate, pats, floor)
