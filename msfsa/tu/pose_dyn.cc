// the overload for dynamic sizes is not used by any shipped sensor; instantiate it
#include <pose_msf/main.cpp>
typedef msf_updates::EKFState DynState;
template void msf_core::MSF_MeasurementBase<DynState>::CalculateAndApplyCorrection(
    boost::shared_ptr<DynState>, msf_core::MSF_Core<DynState>&, const Eigen::MatrixXd&, const Eigen::MatrixXd&, const Eigen::MatrixXd&);
