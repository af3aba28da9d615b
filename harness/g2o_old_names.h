// Names of the g2o release the package was written for, in terms of the
// installed one.
#pragma once
#include <g2o/core/eigen_types.h>
#include <g2o/core/factory.h>
namespace g2o
{
typedef Vector7 Vector7d;
}
#define registerType(tag, creator) registerType(tag, std::shared_ptr<g2o::AbstractHyperGraphElementCreator>(creator))
