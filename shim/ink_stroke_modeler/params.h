// Stand-in for the external ink-stroke-modeler library: parameter structs with
// the field names (and relative order) google/ink designates.
#pragma once
#include <variant>
#include "ink_stroke_modeler/types.h"
namespace ink::stroke_model {
struct PositionModelerParams {
  double spring_mass_constant = 11. / 32400;
  double drag_constant = 72.;
  struct LoopContractionMitigationParameters {
    bool is_enabled = false;
    double speed_lower_bound = -1;
    double speed_upper_bound = -1;
    double interpolation_strength_at_speed_lower_bound = -1;
    double interpolation_strength_at_speed_upper_bound = -1;
    Duration min_speed_sampling_window{-1};
    int min_discrete_speed_samples = -1;
  };
  LoopContractionMitigationParameters loop_contraction_mitigation_params;
};
struct SamplingParams {
  double min_output_rate = -1;
  double end_of_stroke_stopping_distance = -1;
  int end_of_stroke_max_iterations = 20;
  int max_outputs_per_call = 100000;
  double max_estimated_angle_to_traverse_per_input = -1;
};
struct StylusStateModelerParams {
  int max_input_samples = 10;
  bool use_stroke_normal_projection = false;
  int min_input_samples = -1;
  Duration min_sample_duration{-1};
};
struct WobbleSmootherParams {
  bool is_enabled = true;
  Duration timeout{-1};
  float speed_floor = -1;
  float speed_ceiling = -1;
};
struct StrokeEndPredictorParams {};
struct DisabledPredictorParams {};
using PredictionParams = std::variant<StrokeEndPredictorParams, DisabledPredictorParams>;
struct StrokeModelParams {
  WobbleSmootherParams wobble_smoother_params;
  PositionModelerParams position_modeler_params;
  SamplingParams sampling_params;
  StylusStateModelerParams stylus_state_modeler_params;
  PredictionParams prediction_params;
};
}  // namespace ink::stroke_model
