// Minimal operators that only select a function space.
#pragma once
#include "geo.h"
#include <Bembel/LinearOperator>
#include <Bembel/AnsatzSpace>
struct DiscOp;
struct ContOp;
struct DivOp;
namespace Bembel {
template <>
struct LinearOperatorTraits<DiscOp> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = 0, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 };
};
template <>
struct LinearOperatorTraits<ContOp> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = 0, Form = DifferentialForm::Continuous, NumberOfFMMComponents = 1 };
};
template <>
struct LinearOperatorTraits<DivOp> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = 0, Form = DifferentialForm::DivConforming, NumberOfFMMComponents = 1 };
};
}  // namespace Bembel
struct DiscOp : Bembel::LinearOperatorBase<DiscOp> {};
struct ContOp : Bembel::LinearOperatorBase<ContOp> {};
struct DivOp : Bembel::LinearOperatorBase<DivOp> {};
