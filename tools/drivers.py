"""Sources of every C++ driver (built by tools/setup.py and on demand)."""
D = 'harness/drv/'
BUF = ['arolla/memory/raw_buffer_factory.cc', 'arolla/util/preallocated_buffers.cc']
DRIVERS = {
    'drv_refcount': ([D + 'drv_refcount.cc'], []),
    'drv_refptr': ([D + 'drv_refptr.cc'], []),
    'drv_pool_sched': ([D + 'drv_pool.cc', D + 'threading_sched.cc'], ['-DVERIF_SCHED']),
    'drv_pool': ([D + 'drv_pool.cc', 'arolla/util/threading.cc'], []),
    'drv_bits': ([D + 'drv_bits.cc', 'arolla/dense_array/bitmap.cc'] + BUF, []),
    'drv_num': ([D + 'drv_num.cc'], []),
    'drv_math': ([D + 'drv_math.cc'], []),
    'drv_prototypes': ([D + 'drv_prototypes.cc', 'gen:pb/verifpb/m2.pb.cc', 'gen:pb/verifpb/m3.pb.cc', 'arolla/io/proto_types/types.cc'], []),
    'drv_naming': ([D + 'drv_naming.cc', 'arolla/naming/table.cc', 'arolla/naming/policy.cc', 'arolla/naming/protopath_id.cc'], []),
    'drv_dom': ([D + 'drv_dom.cc', 'arolla/algorithm/control_flow_graph.cc'], []),
    'drv_lru': ([D + 'drv_lru.cc'], []),
    'drv_init': ([D + 'drv_init.cc', 'arolla/util/init_arolla.cc', 'arolla/util/init_arolla_internal.cc', 'arolla/util/string.cc'], []),
    'drv_cancel_sched': ([D + 'drv_cancel.cc'], ['-DVERIF_SCHED']),
    'drv_cancel': ([D + 'drv_cancel.cc', 'arolla/util/cancellation.cc'], []),
    'drv_seq': ([D + 'drv_seq.cc'], []),
}

# Fixed parts of the drivers that also contain generated code.
_OPS = ['arolla/memory/frame.cc', 'arolla/memory/raw_buffer_factory.cc', 'arolla/util/preallocated_buffers.cc', 'arolla/memory/optional_value.cc', 'arolla/qexpr/casting.cc', 'arolla/qexpr/operator_errors.cc', 'arolla/qexpr/operator_metadata.cc', 'arolla/qexpr/operators.cc', 'arolla/qexpr/qexpr_operator_signature.cc', 'arolla/qtype/base_types.cc', 'arolla/qtype/derived_qtype.cc', 'arolla/qtype/optional_qtype.cc', 'arolla/qtype/qtype.cc', 'arolla/qtype/shape_qtype.cc', 'arolla/qtype/standard_type_properties/common_qtype.cc', 'arolla/qtype/standard_type_properties/properties.cc', 'arolla/qtype/tuple_qtype.cc', 'arolla/qtype/typed_ref.cc', 'arolla/qtype/typed_slot.cc', 'arolla/qtype/typed_value.cc', 'arolla/qtype/weak_qtype.cc', 'arolla/util/bytes.cc', 'arolla/util/class_info.cc', 'arolla/util/demangle.cc', 'arolla/util/fingerprint.cc', 'arolla/util/init_arolla.cc', 'arolla/util/init_arolla_internal.cc', 'arolla/util/repr.cc', 'arolla/util/text.cc', 'arolla/util/unit.cc', 'arolla/qexpr/generated_operator.cc']
OPS = ['harness/drv/drv_ops.cc'] + _OPS
_PATH = ['arolla/io/input_loader.cc', 'arolla/io/slot_listener.cc', 'arolla/codegen/io/multi_loader.cc', 'arolla/dense_array/qtype/types.cc',
        'arolla/qtype/typed_value.cc', 'arolla/io/proto_types/types.cc', 'arolla/dense_array/bitmap.cc', 'arolla/dense_array/dense_array.cc',
        'arolla/dense_array/edge.cc', 'arolla/memory/frame.cc', 'arolla/memory/optional_value.cc', 'arolla/memory/raw_buffer_factory.cc',
        'arolla/memory/strings_buffer.cc', 'arolla/qtype/base_types.cc', 'arolla/qtype/derived_qtype.cc', 'arolla/qtype/optional_qtype.cc',
        'arolla/qtype/qtype.cc', 'arolla/qtype/shape_qtype.cc', 'arolla/qtype/typed_slot.cc', 'arolla/qtype/weak_qtype.cc', 'arolla/util/bytes.cc',
        'arolla/util/class_info.cc', 'arolla/util/demangle.cc', 'arolla/util/fingerprint.cc', 'arolla/util/init_arolla.cc',
        'arolla/util/init_arolla_internal.cc', 'arolla/util/repr.cc', 'arolla/util/string.cc', 'arolla/util/text.cc', 'arolla/util/unit.cc',
        'arolla/util/preallocated_buffers.cc']
PATH = ['harness/drv/drv_path.cc', 'harness/drv/path_load.cc', 'arolla/codegen/qtype_utils.cc', 'arolla/io/wildcard_input_loader.cc', 'harness/drv/path_trees.cc', 'gen:pb/verifpb/m2.pb.cc', 'gen:pb/verifpb/m3.pb.cc'] + _PATH
PRE = OPS + PATH
_QT = ['arolla/array/array.cc', 'arolla/array/edge.cc', 'arolla/array/id_filter.cc', 'arolla/array/qtype/types.cc', 'arolla/dense_array/bitmap.cc', 'arolla/dense_array/dense_array.cc', 'arolla/dense_array/edge.cc', 'arolla/dense_array/qtype/types.cc', 'arolla/memory/frame.cc', 'arolla/memory/optional_value.cc', 'arolla/memory/raw_buffer_factory.cc', 'arolla/memory/strings_buffer.cc', 'arolla/qexpr/casting.cc', 'arolla/qexpr/operator_errors.cc', 'arolla/qexpr/operators.cc', 'arolla/qexpr/qexpr_operator_signature.cc', 'arolla/qtype/base_types.cc', 'arolla/qtype/derived_qtype.cc', 'arolla/qtype/optional_qtype.cc', 'arolla/qtype/qtype.cc', 'arolla/qtype/shape_qtype.cc', 'arolla/qtype/standard_type_properties/common_qtype.cc', 'arolla/qtype/standard_type_properties/properties.cc', 'arolla/qtype/tuple_qtype.cc', 'arolla/qtype/typed_ref.cc', 'arolla/qtype/typed_slot.cc', 'arolla/qtype/typed_value.cc', 'arolla/qtype/weak_qtype.cc', 'arolla/util/bytes.cc', 'arolla/util/class_info.cc', 'arolla/util/demangle.cc', 'arolla/util/fingerprint.cc', 'arolla/util/init_arolla.cc', 'arolla/util/init_arolla_internal.cc', 'arolla/util/preallocated_buffers.cc', 'arolla/util/repr.cc', 'arolla/util/text.cc', 'arolla/util/unit.cc']
_EX = ['arolla/expr/annotation_expr_operators.cc', 'arolla/expr/annotation_utils.cc', 'arolla/expr/basic_expr_operator.cc', 'arolla/expr/expr.cc', 'arolla/expr/expr_attributes.cc', 'arolla/expr/expr_debug_string.cc', 'arolla/expr/expr_node.cc', 'arolla/expr/expr_operator.cc', 'arolla/expr/expr_operator_signature.cc', 'arolla/expr/expr_visitor.cc', 'arolla/expr/lambda_expr_operator.cc', 'arolla/expr/operator_repr_functions.cc', 'arolla/expr/qtype_utils.cc', 'arolla/expr/registered_expr_operator.cc', 'arolla/expr/tuple_expr_operator.cc', 'arolla/expr/visitors/substitution.cc', 'arolla/memory/frame.cc', 'arolla/memory/optional_value.cc', 'arolla/qtype/base_types.cc', 'arolla/qtype/derived_qtype.cc', 'arolla/qtype/optional_qtype.cc', 'arolla/qtype/qtype.cc', 'arolla/qtype/tuple_qtype.cc', 'arolla/qtype/typed_ref.cc', 'arolla/qtype/typed_slot.cc', 'arolla/qtype/typed_value.cc', 'arolla/qtype/unspecified_qtype.cc', 'arolla/qtype/weak_qtype.cc', 'arolla/util/bytes.cc', 'arolla/util/class_info.cc', 'arolla/util/demangle.cc', 'arolla/util/fingerprint.cc', 'arolla/util/init_arolla.cc', 'arolla/util/init_arolla_internal.cc', 'arolla/util/repr.cc', 'arolla/util/status.cc', 'arolla/util/string.cc', 'arolla/util/text.cc', 'arolla/util/unit.cc']
DRIVERS['drv_expr'] = ([D + 'drv_expr.cc'] + _EX, [])
DRIVERS['drv_registry'] = ([D + 'drv_registry.cc'] + _QT, [])
DRIVERS['drv_frames'] = ([D + 'drv_frames.cc', 'arolla/memory/frame.cc', 'arolla/util/demangle.cc'], [])
DRIVERS['drv_buffers'] = ([D + 'drv_buffers.cc', 'arolla/memory/raw_buffer_factory.cc', 'arolla/memory/strings_buffer.cc', 'arolla/util/fingerprint.cc', 'arolla/util/preallocated_buffers.cc'], [])
DRIVERS['drv_arrays'] = ([D + 'drv_arrays.cc', 'arolla/array/array_util.cc', 'arolla/array/id_filter.cc', 'arolla/dense_array/bitmap.cc', 'arolla/memory/raw_buffer_factory.cc', 'arolla/memory/strings_buffer.cc', 'arolla/util/demangle.cc', 'arolla/util/fingerprint.cc', 'arolla/util/preallocated_buffers.cc', 'arolla/util/status.cc', 'arolla/util/text.cc'], [])
DRIVERS['drv_logic'] = ([D + 'drv_logic.cc', 'arolla/array/id_filter.cc', 'arolla/dense_array/bitmap.cc', 'arolla/memory/raw_buffer_factory.cc', 'arolla/memory/strings_buffer.cc', 'arolla/util/fingerprint.cc', 'arolla/util/preallocated_buffers.cc', 'arolla/util/status.cc'], [])
DRIVERS['drv_rawbuf'] = ([D + 'drv_rawbuf.cc'] + BUF, [])
DRIVERS['drv_edges'] = ([D + 'drv_edges.cc', 'arolla/array/edge.cc', 'arolla/array/id_filter.cc', 'arolla/dense_array/bitmap.cc', 'arolla/dense_array/edge.cc', 'arolla/memory/raw_buffer_factory.cc', 'arolla/memory/strings_buffer.cc', 'arolla/util/fingerprint.cc', 'arolla/util/preallocated_buffers.cc', 'arolla/util/status.cc'], [])
DRIVERS['drv_jagged'] = ([D + 'drv_jagged.cc', 'arolla/array/edge.cc', 'arolla/array/id_filter.cc', 'arolla/dense_array/bitmap.cc', 'arolla/dense_array/edge.cc', 'arolla/jagged_shape/array/jagged_shape.cc', 'arolla/jagged_shape/dense_array/jagged_shape.cc', 'arolla/jagged_shape/util/repr.cc', 'arolla/memory/raw_buffer_factory.cc', 'arolla/memory/strings_buffer.cc', 'arolla/util/fingerprint.cc', 'arolla/util/preallocated_buffers.cc', 'arolla/util/status.cc'], [])

DRIVERS['drv_curve'] = ([D + 'drv_curve.cc'] + ['arolla/dense_array/bitmap.cc', 'arolla/memory/frame.cc', 'arolla/memory/raw_buffer_factory.cc', 'arolla/pwlcurve/curve_operator.cc', 'arolla/pwlcurve/curves.cc', 'arolla/qtype/qtype.cc', 'arolla/util/class_info.cc', 'arolla/util/demangle.cc', 'arolla/util/fingerprint.cc'], [])
DRIVERS['drv_loaders'] = ([D + 'drv_loaders.cc'] + ['arolla/io/input_loader.cc', 'arolla/io/slot_listener.cc', 'arolla/io/typed_refs_input_loader.cc', 'arolla/io/wildcard_input_loader.cc', 'arolla/memory/frame.cc', 'arolla/memory/optional_value.cc', 'arolla/memory/raw_buffer_factory.cc', 'arolla/qtype/base_types.cc', 'arolla/qtype/derived_qtype.cc', 'arolla/qtype/optional_qtype.cc', 'arolla/qtype/qtype.cc', 'arolla/qtype/typed_ref.cc', 'arolla/qtype/typed_slot.cc', 'arolla/qtype/typed_value.cc', 'arolla/qtype/weak_qtype.cc', 'arolla/util/bytes.cc', 'arolla/util/class_info.cc', 'arolla/util/demangle.cc', 'arolla/util/fingerprint.cc', 'arolla/util/init_arolla.cc', 'arolla/util/init_arolla_internal.cc', 'arolla/util/repr.cc', 'arolla/util/string.cc', 'arolla/util/text.cc', 'arolla/util/unit.cc'], [])
DRIVERS['drv_forest'] = ([D + 'drv_forest.cc'] + ['arolla/array/array.cc', 'arolla/array/edge.cc', 'arolla/array/id_filter.cc', 'arolla/array/qtype/types.cc', 'arolla/decision_forest/batched_evaluation/batched_forest_evaluator.cc', 'arolla/decision_forest/decision_forest.cc', 'arolla/decision_forest/pointwise_evaluation/bitmask_builder.cc', 'arolla/decision_forest/pointwise_evaluation/bitmask_eval.cc', 'arolla/decision_forest/pointwise_evaluation/forest_evaluator.cc', 'arolla/decision_forest/pointwise_evaluation/oblivious.cc', 'arolla/decision_forest/pointwise_evaluation/single_input_eval.cc', 'arolla/decision_forest/qexpr_operator/batched_operator.cc', 'arolla/decision_forest/qexpr_operator/pointwise_operator.cc', 'arolla/dense_array/bitmap.cc', 'arolla/dense_array/dense_array.cc', 'arolla/dense_array/edge.cc', 'arolla/dense_array/qtype/types.cc', 'arolla/memory/frame.cc', 'arolla/memory/optional_value.cc', 'arolla/memory/raw_buffer_factory.cc', 'arolla/memory/strings_buffer.cc', 'arolla/qexpr/casting.cc', 'arolla/qexpr/operator_errors.cc', 'arolla/qexpr/operators.cc', 'arolla/qexpr/qexpr_operator_signature.cc', 'arolla/qtype/array_like/array_like_qtype.cc', 'arolla/qtype/array_like/frame_iter.cc', 'arolla/qtype/base_types.cc', 'arolla/qtype/derived_qtype.cc', 'arolla/qtype/optional_qtype.cc', 'arolla/qtype/qtype.cc', 'arolla/qtype/shape_qtype.cc', 'arolla/qtype/standard_type_properties/common_qtype.cc', 'arolla/qtype/standard_type_properties/properties.cc', 'arolla/qtype/tuple_qtype.cc', 'arolla/qtype/typed_ref.cc', 'arolla/qtype/typed_slot.cc', 'arolla/qtype/typed_value.cc', 'arolla/qtype/weak_qtype.cc', 'arolla/util/bytes.cc', 'arolla/util/class_info.cc', 'arolla/util/demangle.cc', 'arolla/util/fingerprint.cc', 'arolla/util/init_arolla.cc', 'arolla/util/init_arolla_internal.cc', 'arolla/util/preallocated_buffers.cc', 'arolla/util/repr.cc', 'arolla/util/text.cc', 'arolla/util/unit.cc'], [])
DRIVERS['drv_serial'] = ([D + 'drv_serial.cc'] + ['arolla/expr/annotation_expr_operators.cc', 'arolla/expr/annotation_utils.cc', 'arolla/expr/basic_expr_operator.cc', 'arolla/expr/expr.cc', 'arolla/expr/expr_attributes.cc', 'arolla/expr/expr_debug_string.cc', 'arolla/expr/expr_node.cc', 'arolla/expr/expr_operator.cc', 'arolla/expr/expr_operator_signature.cc', 'arolla/expr/expr_visitor.cc', 'arolla/expr/operator_repr_functions.cc', 'arolla/expr/qtype_utils.cc', 'arolla/expr/registered_expr_operator.cc', 'arolla/memory/frame.cc', 'arolla/memory/optional_value.cc', 'arolla/qtype/base_types.cc', 'arolla/qtype/derived_qtype.cc', 'arolla/qtype/optional_qtype.cc', 'arolla/qtype/qtype.cc', 'arolla/qtype/tuple_qtype.cc', 'arolla/qtype/typed_ref.cc', 'arolla/qtype/typed_slot.cc', 'arolla/qtype/typed_value.cc', 'arolla/qtype/unspecified_qtype.cc', 'arolla/qtype/weak_qtype.cc', 'arolla/serialization_base/container_proto.cc', 'arolla/serialization_base/decoder.cc', 'arolla/serialization_base/encoder.cc', 'arolla/util/bytes.cc', 'arolla/util/class_info.cc', 'arolla/util/demangle.cc', 'arolla/util/fingerprint.cc', 'arolla/util/init_arolla.cc', 'arolla/util/init_arolla_internal.cc', 'arolla/util/repr.cc', 'arolla/util/status.cc', 'arolla/util/string.cc', 'arolla/util/text.cc', 'arolla/util/unit.cc', 'gen:pb/arolla/proto/serialization_base.pb.cc', 'gen:pb/arolla/serialization_base/base.pb.cc', 'gen:pb/arolla/serialization_codecs/generic/scalar_codec.pb.cc'], [])
DRIVERS['drv_codecs'] = ([D + 'drv_codecs.cc', D + 'codecs_stub.cc'] + ['arolla/algorithm/control_flow_graph.cc', 'arolla/array/array.cc', 'arolla/array/edge.cc', 'arolla/array/id_filter.cc', 'arolla/array/qtype/types.cc', 'arolla/dense_array/bitmap.cc', 'arolla/dense_array/dense_array.cc', 'arolla/dense_array/edge.cc', 'arolla/dense_array/qtype/types.cc', 'arolla/expr/annotation_expr_operators.cc', 'arolla/expr/annotation_utils.cc', 'arolla/expr/backend_wrapping_operator.cc', 'arolla/expr/basic_expr_operator.cc', 'arolla/expr/derived_qtype_cast_operator.cc', 'arolla/expr/eval/casting.cc', 'arolla/expr/eval/compile_where_operator.cc', 'arolla/expr/eval/compile_while_operator.cc', 'arolla/expr/eval/dynamic_compiled_expr.cc', 'arolla/expr/eval/dynamic_compiled_operator.cc', 'arolla/expr/eval/eval.cc', 'arolla/expr/eval/executable_builder.cc', 'arolla/expr/eval/expr_stack_trace.cc', 'arolla/expr/eval/expr_utils.cc', 'arolla/expr/eval/extensions.cc', 'arolla/expr/eval/invoke.cc', 'arolla/expr/eval/model_executor.cc', 'arolla/expr/eval/prepare_expression.cc', 'arolla/expr/eval/side_output.cc', 'arolla/expr/eval/slot_allocator.cc', 'arolla/expr/expr.cc', 'arolla/expr/expr_attributes.cc', 'arolla/expr/expr_debug_string.cc', 'arolla/expr/expr_node.cc', 'arolla/expr/expr_operator.cc', 'arolla/expr/expr_operator_signature.cc', 'arolla/expr/expr_visitor.cc', 'arolla/expr/lambda_expr_operator.cc', 'arolla/expr/operator_loader/backend_operator.cc', 'arolla/expr/operator_loader/dispatch_operator.cc', 'arolla/expr/operator_loader/dummy_operator.cc', 'arolla/expr/operator_loader/generic_operator.cc', 'arolla/expr/operator_loader/helper.cc', 'arolla/expr/operator_loader/parameter_qtypes.cc', 'arolla/expr/operator_loader/qtype_inference.cc', 'arolla/expr/operator_loader/restricted_lambda_operator.cc', 'arolla/expr/operator_repr_functions.cc', 'arolla/expr/operators/bootstrap_operators.cc', 'arolla/expr/operators/casting_registry.cc', 'arolla/expr/operators/derived_qtype_operators.cc', 'arolla/expr/operators/map_operator.cc', 'arolla/expr/operators/meta_operators.cc', 'arolla/expr/operators/tuple_bootstrap_operators.cc', 'arolla/expr/operators/type_meta_eval_strategies.cc', 'arolla/expr/operators/weak_qtype_operators.cc', 'arolla/expr/operators/while_loop/while_loop.cc', 'arolla/expr/operators/while_loop/while_loop_impl.cc', 'arolla/expr/overloaded_expr_operator.cc', 'arolla/expr/qtype_utils.cc', 'arolla/expr/quote.cc', 'arolla/expr/registered_expr_operator.cc', 'arolla/expr/seq_map_expr_operator.cc', 'arolla/expr/seq_reduce_expr_operator.cc', 'arolla/expr/tuple_expr_operator.cc', 'arolla/expr/visitors/substitution.cc', 'arolla/io/input_loader.cc', 'arolla/io/slot_listener.cc', 'arolla/memory/frame.cc', 'arolla/memory/optional_value.cc', 'arolla/memory/raw_buffer_factory.cc', 'arolla/memory/strings_buffer.cc', 'arolla/qexpr/bound_operators.cc', 'arolla/qexpr/casting.cc', 'arolla/qexpr/operator_errors.cc', 'arolla/qexpr/operators.cc', 'arolla/qexpr/operators/core/utility_operators.cc', 'arolla/qexpr/qexpr_operator_signature.cc', 'arolla/qexpr/simple_executable.cc', 'arolla/qtype/array_like/array_like_qtype.cc', 'arolla/qtype/base_types.cc', 'arolla/qtype/derived_qtype.cc', 'arolla/qtype/dict/dict_types.cc', 'arolla/qtype/named_field_qtype.cc', 'arolla/qtype/optional_qtype.cc', 'arolla/qtype/qtype.cc', 'arolla/qtype/shape_qtype.cc', 'arolla/qtype/slice_qtype.cc', 'arolla/qtype/standard_type_properties/common_qtype.cc', 'arolla/qtype/standard_type_properties/properties.cc', 'arolla/qtype/tuple_qtype.cc', 'arolla/qtype/typed_ref.cc', 'arolla/qtype/typed_slot.cc', 'arolla/qtype/typed_value.cc', 'arolla/qtype/unspecified_qtype.cc', 'arolla/qtype/weak_qtype.cc', 'arolla/sequence/sequence.cc', 'arolla/sequence/sequence_qtype.cc', 'arolla/serialization/decode.cc', 'arolla/serialization/encode.cc', 'arolla/serialization_base/container_proto.cc', 'arolla/serialization_base/decoder.cc', 'arolla/serialization_base/encoder.cc', 'arolla/serialization_codecs/array/decoders/array_decoder.cc', 'arolla/serialization_codecs/array/encoders/array_encoder.cc', 'arolla/serialization_codecs/dense_array/decoders/dense_array_decoder.cc', 'arolla/serialization_codecs/dense_array/encoders/dense_array_encoder.cc', 'arolla/serialization_codecs/dict/decoders/dict_decoder.cc', 'arolla/serialization_codecs/dict/encoders/dict_encoder.cc', 'arolla/serialization_codecs/generic/decoders/operator_decoder.cc', 'arolla/serialization_codecs/generic/decoders/optional_decoder.cc', 'arolla/serialization_codecs/generic/decoders/scalar_decoder.cc', 'arolla/serialization_codecs/generic/decoders/tuple_decoder.cc', 'arolla/serialization_codecs/generic/encoders/operator_encoder.cc', 'arolla/serialization_codecs/generic/encoders/optional_encoder.cc', 'arolla/serialization_codecs/generic/encoders/scalar_encoder.cc', 'arolla/serialization_codecs/generic/encoders/tuple_encoder.cc', 'arolla/serialization_codecs/registry.cc', 'arolla/util/bytes.cc', 'arolla/util/cancellation.cc', 'arolla/util/class_info.cc', 'arolla/util/demangle.cc', 'arolla/util/fingerprint.cc', 'arolla/util/init_arolla.cc', 'arolla/util/init_arolla_internal.cc', 'arolla/util/preallocated_buffers.cc', 'arolla/util/repr.cc', 'arolla/util/status.cc', 'arolla/util/string.cc', 'arolla/util/text.cc', 'arolla/util/unit.cc', 'gen:pb/arolla/proto/serialization_base.pb.cc', 'gen:pb/arolla/serialization_base/base.pb.cc', 'gen:pb/arolla/serialization_codecs/array/array_codec.pb.cc', 'gen:pb/arolla/serialization_codecs/dense_array/dense_array_codec.pb.cc', 'gen:pb/arolla/serialization_codecs/dict/dict_codec.pb.cc', 'gen:pb/arolla/serialization_codecs/generic/operator_codec.pb.cc', 'gen:pb/arolla/serialization_codecs/generic/optional_codec.pb.cc', 'gen:pb/arolla/serialization_codecs/generic/scalar_codec.pb.cc', 'gen:pb/arolla/serialization_codecs/generic/tuple_codec.pb.cc'], [])
DRIVERS['drv_eval'] = ([D + 'drv_eval.cc'] + ['arolla/algorithm/control_flow_graph.cc', 'arolla/expr/annotation_expr_operators.cc', 'arolla/expr/annotation_utils.cc', 'arolla/expr/basic_expr_operator.cc', 'arolla/expr/derived_qtype_cast_operator.cc', 'arolla/expr/eval/casting.cc', 'arolla/expr/eval/compile_where_operator.cc', 'arolla/expr/eval/compile_while_operator.cc', 'arolla/expr/eval/dynamic_compiled_expr.cc', 'arolla/expr/eval/dynamic_compiled_operator.cc', 'arolla/expr/eval/eval.cc', 'arolla/expr/eval/executable_builder.cc', 'arolla/expr/eval/expr_stack_trace.cc', 'arolla/expr/eval/expr_utils.cc', 'arolla/expr/eval/extensions.cc', 'arolla/expr/eval/invoke.cc', 'arolla/expr/eval/prepare_expression.cc', 'arolla/expr/eval/slot_allocator.cc', 'arolla/expr/expr.cc', 'arolla/expr/expr_attributes.cc', 'arolla/expr/expr_debug_string.cc', 'arolla/expr/expr_node.cc', 'arolla/expr/expr_operator.cc', 'arolla/expr/expr_operator_signature.cc', 'arolla/expr/expr_visitor.cc', 'arolla/expr/lambda_expr_operator.cc', 'arolla/expr/operator_repr_functions.cc', 'arolla/expr/operators/casting_registry.cc', 'arolla/expr/operators/while_loop/while_loop.cc', 'arolla/expr/operators/while_loop/while_loop_impl.cc', 'arolla/expr/optimization/optimizer.cc', 'arolla/expr/optimization/pattern_based_optimization.cc', 'arolla/expr/optimization/peephole_optimizer.cc', 'arolla/expr/qtype_utils.cc', 'arolla/expr/registered_expr_operator.cc', 'arolla/expr/tuple_expr_operator.cc', 'arolla/expr/visitors/substitution.cc', 'arolla/memory/frame.cc', 'arolla/memory/optional_value.cc', 'arolla/memory/raw_buffer_factory.cc', 'arolla/memory/strings_buffer.cc', 'arolla/qexpr/bound_operators.cc', 'arolla/qexpr/casting.cc', 'arolla/qexpr/operator_errors.cc', 'arolla/qexpr/operators.cc', 'arolla/qexpr/operators/bootstrap/make_tuple_operator.cc', 'arolla/qexpr/operators/core/utility_operators.cc', 'arolla/qexpr/qexpr_operator_signature.cc', 'arolla/qtype/base_types.cc', 'arolla/qtype/derived_qtype.cc', 'arolla/qtype/optional_qtype.cc', 'arolla/qtype/qtype.cc', 'arolla/qtype/shape_qtype.cc', 'arolla/qtype/standard_type_properties/common_qtype.cc', 'arolla/qtype/standard_type_properties/properties.cc', 'arolla/qtype/tuple_qtype.cc', 'arolla/qtype/typed_ref.cc', 'arolla/qtype/typed_slot.cc', 'arolla/qtype/typed_value.cc', 'arolla/qtype/unspecified_qtype.cc', 'arolla/qtype/weak_qtype.cc', 'arolla/util/bytes.cc', 'arolla/util/cancellation.cc', 'arolla/util/class_info.cc', 'arolla/util/demangle.cc', 'arolla/util/fingerprint.cc', 'arolla/util/init_arolla.cc', 'arolla/util/init_arolla_internal.cc', 'arolla/util/repr.cc', 'arolla/util/status.cc', 'arolla/util/string.cc', 'arolla/util/text.cc', 'arolla/util/unit.cc'], [])
