// a state definition unlike the shipped ones: other sizes, a multiplicative correction, core states in between
#include <msf_core/msf_core.h>
namespace synth {
enum StateDefinition { p, v, q, b_w, b_a, s1, s2, s3, s4, s5, s6, s7 };
typedef boost::fusion::vector<
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, p, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, v, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Quaterniond, q, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, b_w, msf_core::CoreStateWithoutPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, b_a, msf_core::CoreStateWithoutPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 2, 1>, s1, msf_core::Auxiliary, msf_core::correctionMultiplicative>,
    msf_core::StateVar_T<Eigen::Quaterniond, s2>,
    msf_core::StateVar_T<Eigen::Matrix<double, 1, 1>, s3, msf_core::AuxiliaryNonTemporalDrifting>,
    msf_core::StateVar_T<Eigen::Matrix<double, 5, 1>, s4>,
    msf_core::StateVar_T<Eigen::Quaterniond, s5, msf_core::AuxiliaryNonTemporalDrifting>,
    msf_core::StateVar_T<Eigen::Matrix<double, 1, 1>, s6, msf_core::Auxiliary, msf_core::correctionMultiplicative>,
    msf_core::StateVar_T<Eigen::Matrix<double, 4, 1>, s7> > Sequence;
typedef msf_core::GenericState_T<Sequence, StateDefinition> State;
typedef Eigen::Matrix<double, State::nErrorStatesAtCompileTime, State::nErrorStatesAtCompileTime> Cov;
inline void synth_noise(State& state, Cov& Q) {
  boost::fusion::for_each(state.statevars, msf_tmp::CopyQBlocksFromAuxiliaryStatesToQ<Sequence>(Q));
}
}  // namespace synth
template struct msf_core::GenericState_T<synth::Sequence, synth::StateDefinition>;
void (*synth_use)(synth::State&, synth::Cov&) = &synth::synth_noise;
