import { groupBy } from './lodash'; export default groupBy;
